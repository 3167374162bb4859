From 34e7eecd773dce875cb7ec3b4d6721b07094529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 01/82] fix: normalize_coords keeps the point and the canonical
 range for latitudes beyond the poles

---
 cratermaker/utils/general_utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 5eb2da0..3abcceb 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -234,26 +234,30 @@ def normalize_coords(location: tuple[FloatLike, FloatLike]) -> tuple[float, floa
     Examples
     --------
     >>> normalize_coords((370, 95))
-    (10.0, 85.0)
+    (-170.0, 85.0)
 
     >>> normalize_coords((-185, -100))
-    (-5.0, 80.0)
+    (-5.0, -80.0)
     """
     lon, lat = location
 
-    # Normalize longitude to be within [-180, 180)
-    normalized_lon = ((lon + 180) % 360) - 180
+    # Wrap out-of-range latitudes onto a single turn, [-180, 180)
+    if lat > 90 or lat < -90:
+        lat = ((lat + 180) % 360) - 180
 
     # Normalize latitude
     if lat > 90:
         normalized_lat = 180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
+        lon = lon - 180  # Flip the longitude
     elif lat < -90:
         normalized_lat = -180 - lat
-        normalized_lon = lon - 180  # Flip the longitude
+        lon = lon - 180  # Flip the longitude
     else:
         normalized_lat = lat
 
+    # Normalize longitude to be within [-180, 180)
+    normalized_lon = ((lon + 180) % 360) - 180
+
     # Ensure latitude is within the range [-90, 90] after adjustments
     normalized_lat = np.clip(normalized_lat, -90, 90)
 
-- 
2.43.0


From 63b2648cee8250f21488d71b39457c744b60a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:11 +0000
Subject: [PATCH 02/82] fix: validate_and_normalize_location accepts record
 arrays and two-point lists as documented

---
 cratermaker/utils/general_utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cratermaker/utils/general_utils.py b/cratermaker/utils/general_utils.py
index 3abcceb..425a073 100644
--- a/cratermaker/utils/general_utils.py
+++ b/cratermaker/utils/general_utils.py
@@ -306,11 +306,9 @@ def validate_and_normalize_location(location):
     """
     # Check if it's already a tuple
 
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lon", "lat"):
-        return normalize_coords((location[0], location[1]))
-
-    if isinstance(location, np.ndarray) and location.dtype.names == ("lat", "lon"):
-        return normalize_coords((location[1], location[0]))
+    if isinstance(location, (np.ndarray, np.void)) and location.dtype.names in (("lon", "lat"), ("lat", "lon")):
+        validated_loc = [normalize_coords((loc["lon"], loc["lat"])) for loc in np.atleast_1d(location).ravel()]
+        return validated_loc[0] if len(validated_loc) == 1 else validated_loc
 
     if isinstance(location, np.ndarray) and len(location.shape) == 2 and location.shape[1] == 2:
         if location.shape[0] == 1:
@@ -321,7 +319,11 @@ def validate_and_normalize_location(location):
                 validated_loc.append(validate_and_normalize_location(loc))
             return validated_loc
 
-    if isinstance(location, (tuple | list | np.ndarray)) and len(location) == 2:
+    if (
+        isinstance(location, (tuple | list | np.ndarray))
+        and len(location) == 2
+        and not isinstance(location[0], (tuple | list | np.ndarray))
+    ):
         return normalize_coords(location)
 
     if (
-- 
2.43.0


From dd10529f971c0ad3e2c2c79c1a543ed4be6c3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 03/82] fix: random point on a face never indexes past the last
 triangle

---
 cratermaker/utils/montecarlo_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index 1328314..6a3d8a7 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -97,7 +97,7 @@ def _get_one_random_location(face_nodes, node_x, node_y, node_z, rng_vals):
     cum_areas = np.cumsum(areas)
 
     # triangle selection
-    tri_idx = np.searchsorted(cum_areas, rng_vals[0])
+    tri_idx = min(np.searchsorted(cum_areas, rng_vals[0]), n_tris - 1)  # cum_areas[-1] may round below 1
     j0, j1, j2 = tris[tri_idx]
     v0, v1, v2 = vertices[j0], vertices[j1], vertices[j2]
 
-- 
2.43.0


From a8777d7f8f011692a87fff5966af2eef0a2d8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 04/82] fix: get_random_size stays inside the table when the
 deviate rounds to its upper bound

---
 cratermaker/utils/montecarlo_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/utils/montecarlo_utils.py b/cratermaker/utils/montecarlo_utils.py
index 6a3d8a7..608f535 100644
--- a/cratermaker/utils/montecarlo_utils.py
+++ b/cratermaker/utils/montecarlo_utils.py
@@ -338,7 +338,8 @@ def get_random_size(
     # Find the indices where the random numbers would be inserted to maintain order
     # Use the right side of the interval to avoid edge effects for when u == sorted_cdf[0]
     # Because rng.uniform returns values in the half-open interval [sorted_cdf[0], sorted_cdf[-1]), u will never be exactly equal to sorted_cdf[-1]
-    indices = np.searchsorted(log_sorted_cdf, u, side="right")
+    # uniform() may round up to its upper bound, which would index past the end of the table
+    indices = np.clip(np.searchsorted(log_sorted_cdf, u, side="right"), 1, log_sorted_cdf.size - 1)
 
     # Initialize the new_diameters array
     new_diameters = np.empty(u.shape)
-- 
2.43.0


From 6b30e7194e218851f8fb0ab8bbe990cbda762cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:48 +0000
Subject: [PATCH 05/82] fix: rng_state takes precedence over rng_seed instead
 of raising

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2b561b7..74bab87 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -941,7 +941,7 @@ def _rng_init(
         if not isinstance(rng, Generator):
             raise ValueError("rng must be a numpy.random.Generator instance.")
     else:
-        if rng_seed is None:
+        if rng_seed is None or rng_state is not None:
             rng = np.random.default_rng()
         if rng_state is not None:
             if not isinstance(rng_state, dict):
-- 
2.43.0


From 116305cccd681541d92a805063dce8e700f4524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 06/82] fix: setting the measured radius or diameter replaces
 both measured axes

---
 cratermaker/components/crater/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2fd5682..2ddc01e 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -235,8 +235,10 @@ class CraterVariable:
             self.measured_semimajor_axis = None
             self.measured_semiminor_axis = None
         else:
-            self.measured_semimajor_axis = value
-            self.measured_semiminor_axis = value
+            if value <= 0:
+                raise ValueError("measured_radius must be positive.")
+            self._measured_semimajor_axis = float(value)
+            self._measured_semiminor_axis = float(value)
         return
 
     @property
-- 
2.43.0


From 6baa9fb8471836b48ce618b1580bf69bb9ed9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 07/82] fix: Crater.maker honours projectile_vertical_velocity

---
 cratermaker/components/crater/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 2ddc01e..d3585ae 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -997,6 +997,14 @@ class Crater(ComponentBase):
             ).new_projectile(
                 **projectile_args,
             )
+            if projectile_vertical_velocity is not None:
+                # Infer the missing member of (velocity, vertical velocity, angle)
+                if projectile_velocity is None:
+                    projectile.velocity = projectile_vertical_velocity / math.sin(math.radians(projectile.angle))
+                elif projectile_angle is None:
+                    if projectile_vertical_velocity > projectile_velocity:
+                        raise ValueError("projectile_vertical_velocity cannot be larger than projectile_velocity")
+                    projectile.angle = math.degrees(math.asin(projectile_vertical_velocity / projectile_velocity))
 
             scaling = Scaling.maker(
                 scaling,
-- 
2.43.0


From 1536c9cc53abb65a27c0f058b5c76711b185c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 08/82] fix: Crater.maker honours projectile_mean_velocity

---
 cratermaker/components/crater/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index d3585ae..f7b7b2e 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -16,6 +16,7 @@ from vtk import vtkPolyData
 
 from cratermaker.constants import _VBIG, PairOfFloats
 from cratermaker.core.base import ComponentBase, CratermakerBase, import_components
+from cratermaker.utils import montecarlo_utils as mc
 from cratermaker.utils.general_utils import format_large_units, validate_and_normalize_location
 
 if TYPE_CHECKING:
@@ -997,6 +998,15 @@ class Crater(ComponentBase):
             ).new_projectile(
                 **projectile_args,
             )
+            if projectile_mean_velocity is not None:
+                if projectile.sample:
+                    projectile.velocity = float(
+                        mc.get_random_velocity(
+                            vmean=projectile_mean_velocity, vescape=target.escape_velocity, rng=projectile.rng
+                        )[0]
+                    )
+                else:
+                    projectile.velocity = projectile_mean_velocity
             if projectile_vertical_velocity is not None:
                 # Infer the missing member of (velocity, vertical velocity, angle)
                 if projectile_velocity is None:
-- 
2.43.0


From e631037ea15b6be73f815d0804b7f00f0dca77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 09/82] fix: the default production function follows the target
 body

---
 cratermaker/components/production/__init__.py | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index b8ae8bc..6701e32 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -160,20 +160,20 @@ class Production(ComponentBase):
             production = production.lower()
             if production == "neukum":
                 set_version = True
-            if set_version:
-                version = kwargs.pop("version", None)
-                if target is None and version is not None and version in ["Moon", "Mars"]:
-                    target = version
-                target = Target.maker(target, **kwargs)
-                if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
-                    production = "neukum"
-                    if version is None or version != "projectile":
-                        if target.name in ["Moon", "Mars"]:
-                            version = target.name
-                        else:
-                            version = "projectile"
-                else:
-                    production = "powerlaw"
+        if set_version:
+            version = kwargs.pop("version", None)
+            if target is None and version is not None and version in ["Moon", "Mars"]:
+                target = version
+            target = Target.maker(target, **kwargs)
+            if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
+                production = "neukum"
+                if version is None or version != "projectile":
+                    if target.name in ["Moon", "Mars"]:
+                        version = target.name
+                    else:
+                        version = "projectile"
+            else:
+                production = "powerlaw"
 
         return super().maker(
             component=production,
-- 
2.43.0


From 7df4a6389d2d6d3f628f23774559678e1f3ec570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:00 +0000
Subject: [PATCH 10/82] fix: the projectile production version is recognised in
 its canonical spelling

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 6701e32..f1e007f 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -167,7 +167,7 @@ class Production(ComponentBase):
             target = Target.maker(target, **kwargs)
             if target.name in ["Mercury", "Venus", "Earth", "Moon", "Mars"]:
                 production = "neukum"
-                if version is None or version != "projectile":
+                if version is None or version.lower() != "projectile":
                     if target.name in ["Moon", "Mars"]:
                         version = target.name
                     else:
-- 
2.43.0


From 7d2d437f9dfd840c7dd89b2b1d075dd06492b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:00 +0000
Subject: [PATCH 11/82] fix: N(D) values passed to sample are converted to
 number per square meter

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index f1e007f..02b9e93 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -666,14 +666,14 @@ class Production(ComponentBase):
             if time_start is not None:
                 raise ValueError("Cannot provide both N_D and time_start")
             time_start = self.age_from_D_N(
-                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] * self.N_conversion_factor
+                diameter=N_D[0] * self.D_conversion_factor, cumulative_number_density=N_D[1] / self.N_conversion_factor
             )
 
         if N_D_end is not None:
             if time_end is not None:
                 raise ValueError("Cannot provide both N_D_end and time_end")
             time_end = self.age_from_D_N(
-                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] * self.N_conversion_factor
+                diameter=N_D_end[0] * self.D_conversion_factor, cumulative_number_density=N_D_end[1] / self.N_conversion_factor
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-- 
2.43.0


From 907e1d40e4321b0980d0cd5db6ed6d3abb6d00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:50 +0000
Subject: [PATCH 12/82] fix: crater formation times follow the production
 function

---
 cratermaker/components/production/__init__.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 02b9e93..0e5ec34 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -314,24 +314,14 @@ class Production(ComponentBase):
             **kwargs,
         )
 
-        # Normalize the weights for each diameter
+        # N_vs_age is already cumulative in age, so normalizing it gives the CDF of formation time for each diameter
         if N_vs_age.ndim > 1:
             N_vs_age -= np.min(N_vs_age, axis=1)[:, None]  # Subtract the min along age dimension
-            N_vs_age = N_vs_age[:, :-1]  # Remove the last value to avoid the cumulative sum reaching 1
-            weights_sum = np.sum(N_vs_age, axis=1)[:, None]  # Sum of weights for each diameter
-            weights = N_vs_age / weights_sum  # Normalize weights for each diameter
-
-            # Compute the CDF for each diameter
-            cdf = np.cumsum(weights, axis=1)
-
+            cdf = N_vs_age[:, :-1] / N_vs_age[:, -1:]  # Remove the last value, where the CDF reaches 1
         else:
             if len(N_vs_age) > 0:
                 N_vs_age -= np.min(N_vs_age)  # Subtract the min along age dimension
-                N_vs_age = N_vs_age[:-1]  # Remove the last value to avoid the cumulative sum reaching 1
-                weights_sum = np.sum(N_vs_age)  # Sum of weights for each diameter
-                weights = N_vs_age / weights_sum  # Normalize weights for each diameter
-                # Compute the CDF for each diameter
-                cdf = np.cumsum(weights)
+                cdf = N_vs_age[:-1] / N_vs_age[-1]  # Remove the last value, where the CDF reaches 1
             else:
                 cdf = np.empty(0)
 
-- 
2.43.0


From 50f6f611571e482e6043393f6e6e39dce0ce293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 13/82] fix: sampling without a diameter range uses the
 production function's own range

---
 cratermaker/components/production/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 0e5ec34..55e0313 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -667,7 +667,9 @@ class Production(ComponentBase):
             )
         diameter_number = kwargs.get("diameter_number")
         diameter_number_end = kwargs.get("diameter_number_end")
-        diameter_range = kwargs.pop("diameter_range", self.diameter_range)
+        diameter_range = kwargs.pop("diameter_range", None)
+        if diameter_range is None:
+            diameter_range = self.diameter_range
         area = kwargs.get("area")
         compute_time = kwargs.get("compute_time", True)
 
-- 
2.43.0


From 83bf8f55ed2e27b2e9aec6eceacbf2f4effa04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 14/82] fix: diameter_range accepts arrays as documented

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 55e0313..aea859b 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1332,7 +1332,7 @@ class Production(ComponentBase):
         # Reset to default
         if value is None:
             self._diameter_range = (0, np.inf)
-        elif not isinstance(value, (list, tuple, ArrayLike)) or len(value) != 2:
+        elif not isinstance(value, (list, tuple, np.ndarray)) or len(value) != 2:
             raise TypeError("diameter_range must be a list, tuple, or array of length 2")
         else:
             self._diameter_range = (float(value[0]), float(value[1]))
-- 
2.43.0


From 5dc6a49e8d376e632da1daed3156a37a2a0d5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 15/82] fix: diameter_number_end may be given at another
 diameter than diameter_number

---
 cratermaker/components/production/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index aea859b..6d24414 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -734,6 +734,8 @@ class Production(ComponentBase):
             # If not, we need to adjust the end diameter value it so that they match
             if diameter_number is not None:
                 if diameter_number_density_end[0] != diameter_number_density[0]:
+                    if time_end is None:
+                        time_end = self.age_from_D_N(*diameter_number_density_end)
                     diameter_number_density_end = (
                         diameter_number_density[0],
                         self.function(diameter=diameter_number_density[0], time_start=time_end),
-- 
2.43.0


From 7106feffd1abf32d8ad00e06267f5144a463d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 16/82] fix: drawn quasi-Monte Carlo times are never in the
 future

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 6d24414..4555d75 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1017,7 +1017,7 @@ class Production(ComponentBase):
                     t = self.rng.normal(loc=tmean, scale=tsig) if tsig > 0 else tmean
                 if isinstance(t, np.ndarray):
                     t = t.item()
-                max(t, 0.0)
+                t = max(t, 0.0)
                 return float(t)
             else:
                 return None
-- 
2.43.0


From f20c6891f234b6b475de164b73431b000f17d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 17/82] fix: a scalar time_end outside the valid times is
 rejected like an array one

---
 cratermaker/components/production/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index 4555d75..dfd0f3c 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -809,7 +809,7 @@ class Production(ComponentBase):
                 raise TypeError("time_end must be a numeric value (float or int)")
             if time_start < time_end:
                 raise ValueError("time_start must be greater than the time_end")
-            if self.valid_time[0] is not None and time_start < self.valid_time[0]:
+            if self.valid_time[0] is not None and (time_start < self.valid_time[0] or time_end < self.valid_time[0]):
                 raise ValueError(
                     f"time_start must be greater than the minimum valid time {self.valid_time[0]} (it is units of My before present)"
                 )
-- 
2.43.0


From dd56e6c8939696a34f7adebab762424d705a1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:09 +0000
Subject: [PATCH 18/82] fix: assigning a positive power law slope flips its
 sign as the constructor does

---
 cratermaker/components/production/powerlaw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 67b671f..0fefc67 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -218,4 +218,5 @@ class PowerLawProduction(Production):
     def slope(self, value):
         if not isinstance(value, FloatLike):
             raise TypeError("slope must be a numeric value (float or int)")
-        self._slope = value
+        # Slope must be negative, but convention in the field is mixed. So we flip the sign if it is positive.
+        self._slope = -abs(value)
-- 
2.43.0


From c1d551536c49edec36552a0088dd4b605e487d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:10 +0000
Subject: [PATCH 19/82] fix: the power law chronology is linear in time as
 documented

---
 cratermaker/components/production/powerlaw.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 0fefc67..01a06ce 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -176,9 +176,7 @@ class PowerLawProduction(Production):
                 else:
                     time_end = np.zeros_like(time_start)
 
-        N1km = self.csfd(1000.0, time_start=time_start, time_end=time_start, validate_inputs=False)
-
-        return N1km
+        return np.asarray(time_start - time_end)
 
     def csfd(self, diameter: FloatLike | ArrayLike, **kwargs: Any) -> FloatLike | ArrayLike:
         """
-- 
2.43.0


From 276ef840bfd84ccb3893a12da8fd69f076e743b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:57 +0000
Subject: [PATCH 20/82] fix: changing the Neukum version recomputes its
 chronology constants

---
 cratermaker/components/production/neukum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/production/neukum.py b/cratermaker/components/production/neukum.py
index 5c29c32..55ad325 100644
--- a/cratermaker/components/production/neukum.py
+++ b/cratermaker/components/production/neukum.py
@@ -239,6 +239,9 @@ class NeukumProduction(Production):
         if value.title() not in self.valid_versions:
             raise ValueError(f"Invalid version '{value}'. Valid options are {self.valid_versions}")
         self._version = value.title()
+        # The chronology constants depend on the version
+        self._Cexp = None
+        self._Clin = None
 
         if self._version == "Projectile":
             self._generator_type = "projectile"
-- 
2.43.0


From c6c0f743e4240e86e7794563485ee49aa7cba273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:15 +0000
Subject: [PATCH 21/82] fix: N_D and N_D_end arguments of a run may be arrays

---
 cratermaker/core/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index cf34545..86cd315 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -6,7 +6,6 @@ import pyvista
 import yaml
 from matplotlib.axes import Axes
 from numpy.random import Generator
-from numpy.typing import ArrayLike
 from tqdm import tqdm
 
 from cratermaker.components.counting import Counting
@@ -370,11 +369,11 @@ class Simulation(CratermakerBase):
         elif N_D is not None:
             if diameter_number is not None or diameter_number_end is not None:
                 raise ValueError("Cannot specify both N_D and diameter_number")
-            if not isinstance(N_D, (list, tuple, ArrayLike)) or len(N_D) != 2:
+            if not isinstance(N_D, (list, tuple, np.ndarray)) or len(N_D) != 2:
                 raise ValueError("N_D must be a pair of values (diameter, number)")
             if N_D_end is None:
                 N_D_end = (N_D[0], 0.0)
-            elif not isinstance(N_D_end, (list, tuple, ArrayLike)) or len(N_D_end) != 2:
+            elif not isinstance(N_D_end, (list, tuple, np.ndarray)) or len(N_D_end) != 2:
                 raise ValueError("N_D_end must be a pair of values (diameter, number)")
 
             diameter_number = (
-- 
2.43.0


From f8032b71c41a7d37cd0d9cb95ec0753612caeda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 22/82] fix: time_interval may be combined with a span given as
 N_D or diameter_number

---
 cratermaker/core/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 86cd315..ce1ad5d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -412,6 +412,9 @@ class Simulation(CratermakerBase):
         kwargs = self.production._validate_sample_args(**kwargs)
 
         if is_time_interval:
+            # The span may have been given as numbers of craters instead of times
+            time_start = kwargs["time_start"]
+            time_end = kwargs["time_end"]
             if time_interval is None:
                 if ninterval is None:
                     ninterval = 1
-- 
2.43.0


From 30372d454d06c5d056336d22ee00cd45d185dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:32 +0000
Subject: [PATCH 23/82] fix: a restarted run does not repeat intervals that are
 already complete

---
 cratermaker/core/simulation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index ce1ad5d..be17723 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -557,8 +557,11 @@ class Simulation(CratermakerBase):
             raise RuntimeError(
                 "Starting time cannot be later than the current time. Choose a starting time value equal to or larger than the current time, or reset this simulation."
             )
-        if is_time_interval:
-            initial_interval = int((time_start - self.time) / time_interval)
+        _TOL = 1e-9  # Intervals are counted up to roundoff, so that a completed one is not repeated
+        if self.time <= time_end + _TOL * (time_start - time_end):
+            initial_interval = ninterval
+        elif is_time_interval:
+            initial_interval = int((time_start - self.time) / time_interval + _TOL)
         else:
             delta_n1_start = self.production.function(
                 diameter=_DSTD,
@@ -575,7 +578,7 @@ class Simulation(CratermakerBase):
                 ).item()
                 / ninterval
             )
-            initial_interval = int(delta_n1_start / n1_interval)
+            initial_interval = int(delta_n1_start / n1_interval + _TOL)
 
         if self.is_new:
             self.save(**kwargs)
-- 
2.43.0


From 9b4ce1b660e58fee042e5353d177c17a10fa4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 24/82] fix: elapsed time counts the actual length of a
 shortened last interval

---
 cratermaker/core/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index be17723..c8915e5 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -634,8 +634,7 @@ class Simulation(CratermakerBase):
                         current_time_end = 0.0
                     if current_time_end < 0.0:
                         current_time_end = 0.0
-                    time_interval = time - current_time_end
-                self.elapsed_time += time_interval
+                self.elapsed_time += time - current_time_end
                 self.elapsed_n1 += (
                     self.production.function(
                         diameter=_DSTD,
-- 
2.43.0


From d6271ccb863c8f2926d53a0d059cad8b8839e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 25/82] fix: continuing a run with different intervals does not
 emplace part of the past twice

---
 cratermaker/core/simulation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index c8915e5..8e214eb 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -593,7 +593,8 @@ class Simulation(CratermakerBase):
             for i in range(initial_interval, ninterval):
                 self.counting._emplaced = []
                 if is_time_interval:
-                    time = time_start - i * time_interval
+                    # A continuation with different intervals starts from the current time
+                    time = min(self.time, time_start - i * time_interval)
                     current_time_end = time_start - (i + 1) * time_interval
                     if current_time_end < time_end:
                         current_time_end = time_end
@@ -606,6 +607,12 @@ class Simulation(CratermakerBase):
                         diameter_number[0],
                         diameter_number[1] - i * diameter_number_interval[1],
                     )
+                    if i == initial_interval and i > 0:
+                        # A continuation with different intervals starts from the current time
+                        current_number = self.surface.area * self.production.function(
+                            diameter=diameter_number[0], time_start=self.time, validate_inputs=validate_inputs
+                        ).item()
+                        current_diameter_number = (diameter_number[0], min(current_diameter_number[1], current_number))
                     current_diameter_number_end = (
                         diameter_number[0],
                         diameter_number[1] - (i + 1) * diameter_number_interval[1],
-- 
2.43.0


From 8721d1ed9eac1e7eb2af563884577a90b97e016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:25 +0000
Subject: [PATCH 26/82] fix: a run over a span given as diameter_number does
 not pass the span twice

---
 cratermaker/core/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8e214eb..8796e07 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -536,6 +536,9 @@ class Simulation(CratermakerBase):
         ninterval = arguments.pop("ninterval", None)
         is_time_interval = arguments.pop("is_time_interval", None)
         validate_inputs = kwargs.pop("validate_inputs", False)
+        # The span of each interval is passed to populate explicitly, so it must not be in the remaining arguments as well
+        kwargs.pop("diameter_number", None)
+        kwargs.pop("diameter_number_end", None)
         if ninterval == 1:
             is_time_interval = True
             time_interval = time_start - time_end
-- 
2.43.0


From 23aaa89df7a76b500620cf9b76ff554854ded335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:50 +0000
Subject: [PATCH 27/82] fix: continuing a run within the first of its number
 intervals does not emplace part of the past twice

---
 cratermaker/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8796e07..4faf9f1 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -610,7 +610,7 @@ class Simulation(CratermakerBase):
                         diameter_number[0],
                         diameter_number[1] - i * diameter_number_interval[1],
                     )
-                    if i == initial_interval and i > 0:
+                    if i == initial_interval and self.time < time_start:
                         # A continuation with different intervals starts from the current time
                         current_number = self.surface.area * self.production.function(
                             diameter=diameter_number[0], time_start=self.time, validate_inputs=validate_inputs
-- 
2.43.0


From ea71ccc6ec4421f1fd400d8080326c424ef4fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:22 +0000
Subject: [PATCH 28/82] fix: projectile size limits of a crater production are
 converted to crater diameters

---
 cratermaker/core/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4faf9f1..120b935 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1715,7 +1715,7 @@ class Simulation(CratermakerBase):
             minval = max(value, self._get_diameter_limit("smallest", crater_diameter=self.max_crater_diameter_range[0]))
             maxval = min(self.production.diameter_range[1], self._get_diameter_limit("largest", self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(value, self.production.diameter_range[0])
+            minval = self._get_diameter_limit("smallest", projectile_diameter=value)
             maxval = min(self.production.diameter_range[1], self.max_crater_diameter_range[1])
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
@@ -1746,8 +1746,8 @@ class Simulation(CratermakerBase):
             )
             maxval = min(value, self._get_diameter_limit("largest", crater_diameter=self.max_crater_diameter_range[1]))
         elif self.production.generator_type == "crater":
-            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[1])
-            maxval = self._get_diameter_limit("largest", crater_diameter=value)
+            minval = max(self.production.diameter_range[0], self.max_crater_diameter_range[0])
+            maxval = self._get_diameter_limit("largest", projectile_diameter=value)
         else:
             raise ValueError("Unknown Production generator_type. Expecting either 'crater' or 'projectile'")
 
-- 
2.43.0


From 4674cfbc705f914bdc4373f2694d5b937004e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:22 +0000
Subject: [PATCH 29/82] fix: quasi-Monte Carlo craters assigned after the first
 population are used

---
 cratermaker/core/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 120b935..2a770cd 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1878,7 +1878,7 @@ class Simulation(CratermakerBase):
             True if quasi-Monte Carlo sampling is being used, False otherwise.
         """
         if self._do_quasimc is None:
-            self._do_quasimc = (
+            return (
                 len(self.production.quasimc_craters) > 0
                 if self.production is not None and self.production.quasimc_craters is not None
                 else False
@@ -1887,7 +1887,7 @@ class Simulation(CratermakerBase):
 
     @do_quasimc.setter
     def do_quasimc(self, value: bool | None):
-        if not isinstance(value, (bool, None)):
+        if not isinstance(value, (bool, type(None))):
             raise TypeError("do_quasimc must be a boolean value or None")
         self._do_quasimc = value
 
-- 
2.43.0


From a016612710b418b2fbc1280a6acb5559563c1414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:22 +0000
Subject: [PATCH 30/82] fix: face bins hold the largest faces when the area
 ratio is a power of two

---
 cratermaker/components/surface/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 6ef1cae..96bafd6 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1627,7 +1627,7 @@ class Surface(ComponentBase):
         """
         min_area = self.face_area.min()
         max_area = self.face_area.max()
-        max_bin_index = np.ceil(np.log2(max_area / min_area)).astype(int)
+        max_bin_index = np.floor(np.log2(max_area / min_area)).astype(int) + 1
         bins = [[] for _ in range(max_bin_index)]
 
         for face_index, area in enumerate(self.face_area):
-- 
2.43.0


From d1a470f258f2ed12bc50fffc571edec7a329998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 31/82] fix: node data of a region with as many nodes as faces
 was written to the faces' indices

---
 cratermaker/components/surface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 96bafd6..529e27c 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2165,7 +2165,7 @@ class LocalSurface(CratermakerBase):
             data = np.array(data, dtype=dtype)
         else:
             data = np.asarray(data, dtype=dtype)
-        if data.size == self.n_face:
+        if data.size == self.n_face and (isfacedata or self.n_face != self.n_node):
             isfacedata = True
             indices = self.face_indices
         elif data.size == self.n_node:
@@ -2252,7 +2252,7 @@ class LocalSurface(CratermakerBase):
             if not update_node:
                 self.interpolate_node_elevation_from_faces()
         if update_node:
-            self.add_data(name="node_elevation", data=new_node_elev, overwrite=overwrite)
+            self.add_data(name="node_elevation", data=new_node_elev, overwrite=overwrite, isfacedata=False)
 
         return
 
-- 
2.43.0


From 5aa5f0d9af491f977c881c445252c71484af52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 32/82] fix: longitude extents of a region did not cover it
 away from the equator

---
 cratermaker/components/surface/__init__.py    | 2 +-
 cratermaker/components/surface/datasurface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 529e27c..7f0b56f 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1417,7 +1417,7 @@ class Surface(ComponentBase):
         if abs(lat0) + alpha_deg >= 90.0:
             lon_min, lon_max = -180.0, 180.0
         else:
-            half_lon_span = alpha_deg / np.cos(np.radians(lat0))
+            half_lon_span = np.degrees(np.arcsin(np.sin(np.radians(alpha_deg)) / np.cos(np.radians(lat0))))
             half_lon_span = min(half_lon_span, 180.0)
 
             lon_min = lon0 - half_lon_span
diff --git a/cratermaker/components/surface/datasurface.py b/cratermaker/components/surface/datasurface.py
index 5f05bdf..764a2cf 100644
--- a/cratermaker/components/surface/datasurface.py
+++ b/cratermaker/components/surface/datasurface.py
@@ -165,7 +165,7 @@ class DataSurface(HiResLocalSurface):
         if abs(lat0) + alpha_deg >= 90.0:
             lon_min, lon_max = -180.0, 180.0
         else:
-            half_lon_span = alpha_deg / np.cos(np.radians(lat0))
+            half_lon_span = np.degrees(np.arcsin(np.sin(np.radians(alpha_deg)) / np.cos(np.radians(lat0))))
             half_lon_span = min(half_lon_span, 180.0)
 
             lon_min = lon0 - half_lon_span
-- 
2.43.0


From c481fa330970d04e61bdb26a0ca7e629c840fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 33/82] fix: forming the ejecta of a crater that excavated
 nothing raised a TypeError

---
 cratermaker/components/morphology/basicmoon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 0b81ef8..5831193 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -261,7 +261,10 @@ class BasicMoonMorphology(Morphology):
         """
         if not isinstance(crater, BasicMoonCrater):
             crater = BasicMoonCrater.maker(crater, morphology=self)
-        ejecta_thickness, ejecta_intensity = super().form_ejecta(crater, **kwargs)
+        ejecta = super().form_ejecta(crater, **kwargs)
+        if ejecta is None:  # Nothing was excavated
+            return
+        ejecta_thickness, ejecta_intensity = ejecta
         k_ej = self.ejecta_burial_degradation(ejecta_thickness[: crater.ejecta_region.n_face], ejecta_soften_factor=1.50)
         crater.ejecta_region.apply_diffusion(k_ej)
 
-- 
2.43.0


From bdf78283f147233b7525c2912b028301505ada8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 34/82] fix: saved craters lost their formation time to the
 time of the save

---
 cratermaker/components/counting/__init__.py | 3 ++-
 cratermaker/components/crater/__init__.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a8b9e86..d2e75c2 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -489,7 +489,8 @@ class Counting(ComponentBase):
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
                     for k, v in time_variables.items():
-                        ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
+                        if k not in ds:  # Each crater keeps its own formation time
+                            ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
                 if filename.exists():
                     filename.unlink()
                 ds.to_netcdf(filename)
diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index f7b7b2e..ff09fa4 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1390,6 +1390,8 @@ class Crater(ComponentBase):
         dataset.load()
         if len(dataset) == 0:
             return craters
+        # Leave out the variables that belong to the whole dataset, such as the time it was saved
+        dataset = dataset[[var for var in dataset.data_vars if "id" in dataset[var].dims]]
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-- 
2.43.0


From 37cd43e35c172cfd652a086b4ff637eca0788d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 35/82] fix: a resumed simulation brought back craters of an
 older interval

---
 cratermaker/components/counting/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index d2e75c2..a56b540 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -85,14 +85,16 @@ class Counting(ComponentBase):
         ]
 
         if not reset:
-            observed, emplaced = self.read_saved_output(interval=-1)
+            # An interval without any craters has no file, so the last saved file is not necessarily from the last saved interval
+            saved = [*self.get_saved_interval_numbers(), (self._surface.get_saved_interval_numbers() or [None])[0]]
+            interval = max((i for numbers in saved for i in numbers or []), default=-1)
+            observed, emplaced = self.read_saved_output(interval=interval)
             if observed:
-                interval = observed.interval.values[-1]
                 observed = self.Crater.from_xarray(observed, interval=interval)
                 for crater in observed:
                     self._observed[crater.id] = crater
-                if emplaced:
-                    self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
+            if emplaced:
+                self._emplaced = self.Crater.from_xarray(emplaced, interval=interval)
         return
 
     @classmethod
@@ -483,16 +485,16 @@ class Counting(ComponentBase):
         elif crater_type == "both":
             iterator = zip([self.observed, self.emplaced], ["observed", "emplaced"], strict=True)
         for craters, crater_type in iterator:
+            filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
+            if filename.exists():
+                filename.unlink()
             if craters:
-                filename = self.output_dir / f"{crater_type}_{self.output_filename(interval)}"
                 ds = self.to_xarray(craters)
                 ds = ds.expand_dims(dim="interval").assign_coords({"interval": [interval]})
                 if time_variables is not None:
                     for k, v in time_variables.items():
                         if k not in ds:  # Each crater keeps its own formation time
                             ds[k] = xr.DataArray(data=[v], name=k, dims=["interval"], coords={"interval": [interval]})
-                if filename.exists():
-                    filename.unlink()
                 ds.to_netcdf(filename)
         save_args = {"interval": interval, **kwargs}
         super().save(**save_args)
-- 
2.43.0


From 7f420cf3df5772b217825575fd9bcebbcaf1b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 36/82] fix: passing the version of a production function to
 Simulation raised a TypeError

---
 cratermaker/components/production/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index dfd0f3c..c8d52ea 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -153,7 +153,7 @@ class Production(ComponentBase):
 
         """
         set_version = False
-        version = None
+        version = kwargs.pop("version", None)
         if production is None:
             set_version = True
         elif isinstance(production, str):
@@ -161,7 +161,6 @@ class Production(ComponentBase):
             if production == "neukum":
                 set_version = True
         if set_version:
-            version = kwargs.pop("version", None)
             if target is None and version is not None and version in ["Moon", "Mars"]:
                 target = version
             target = Target.maker(target, **kwargs)
-- 
2.43.0


From 317f1a226be54b381e19cb13a87a0bb11bf5a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 37/82] fix: a component given when resuming kept the saved
 settings of the one it replaces

---
 cratermaker/core/simulation.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 2a770cd..dd0ee59 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -128,20 +128,23 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        component_args = {
+            "target": target,
+            "scaling": scaling,
+            "production": production,
+            "morphology": morphology,
+            "projectile": projectile,
+            "surface": surface,
+            "counting": counting,
+        }
         config_override = {}
         for component in _COMPONENT_NAMES:
             # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
-            config_override[component] = getattr(self, f"_{component}") is not None
+            config_override[component] = component_args[component] is not None
 
         _, unmatched = _set_properties(
             self,
-            target=target,
-            scaling=scaling,
-            production=production,
-            morphology=morphology,
-            projectile=projectile,
-            surface=surface,
-            counting=counting,
+            **component_args,
             config_file=config_file,
             **vars(self.common_args),
         )
-- 
2.43.0


From 37426aa8c99ce1e5fa20ecfcce56cd586a20c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 38/82] fix: the state saved by a resumed simulation was never
 written to its configuration

---
 cratermaker/core/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index dd0ee59..2fabd44 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -895,6 +895,7 @@ class Simulation(CratermakerBase):
 
         self.counting.save(**save_args)
 
+        object.__setattr__(self, "_config_readonly", False)  # The configuration read by a resumed simulation is now out of date
         self.to_config(**kwargs)
         super().save(**save_args)
 
-- 
2.43.0


From ced1960d8cc55c873ce295e5e6b58fcd1ca3739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 39/82] fix: the configuration recorded the progress of a run
 before its data were saved

---
 cratermaker/core/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 2fabd44..7afefc8 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -287,7 +287,8 @@ class Simulation(CratermakerBase):
 
     def __setattr__(self, name, value):
         super().__setattr__(name, value)
-        if name not in self._user_defined:
+        # The progress of a run is only written to the configuration after its data have been saved
+        if name not in self._user_defined or name in ("interval", "time", "elapsed_time", "elapsed_n1"):
             return
         # Avoid recursive calls during initialization or early access
         if (
-- 
2.43.0


From 2342a3d568750d80fad329aa04aec0fb39e577e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 40/82] fix: a resumed simulation forgot its save actions and
 whether it counts craters

---
 cratermaker/core/simulation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 7afefc8..529e74d 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -81,7 +81,7 @@ class Simulation(CratermakerBase):
         rng_state: dict | None = None,
         reset: bool = None,
         ask_overwrite: bool = True,
-        do_counting: bool = True,
+        do_counting: bool | None = None,
         save_actions: list[dict[str, dict]] | None | str = "default",
         **kwargs: Any,
     ):
@@ -142,7 +142,7 @@ class Simulation(CratermakerBase):
             # Set to true if a local variable from the argument list with the component name is set to something other than None, otherwise false
             config_override[component] = component_args[component] is not None
 
-        _, unmatched = _set_properties(
+        matched, unmatched = _set_properties(
             self,
             **component_args,
             config_file=config_file,
@@ -207,6 +207,8 @@ class Simulation(CratermakerBase):
             **counting_config,
         )
 
+        if do_counting is None:
+            do_counting = morphology_config.get("do_counting", True)
         morphology_config = {**morphology_config, **kwargs, "do_counting": do_counting}
         self.morphology = Morphology.maker(
             self.morphology,
@@ -243,7 +245,8 @@ class Simulation(CratermakerBase):
             skip_components = ["surface"]
             self.reset(skip_component=skip_components)
 
-        self.save_actions = save_actions
+        if save_actions != "default" or "save_actions" not in matched:
+            self.save_actions = save_actions
 
         self.to_config()
 
-- 
2.43.0


From 4803960f103c28e90a8f76a36341979b059b258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 41/82] fix: a resumed simulation forgot its limits on the
 sizes of craters

---
 cratermaker/components/production/__init__.py | 2 +-
 cratermaker/core/simulation.py                | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index c8d52ea..ed00de7 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -1321,7 +1321,7 @@ class Production(ComponentBase):
         else:
             self._quasimc_craters = self._process_quasimc_craters(value)
 
-    @property
+    @parameter
     def diameter_range(self) -> tuple[float, float]:
         """
         The lower and upper range of diameters that will be returned from :py:meth:`~cratermaker.components.production.Production.sample`.
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 529e74d..5eb6fce 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -167,6 +167,7 @@ class Simulation(CratermakerBase):
         target_config = {**target_config, **kwargs}
         self.target = Target.maker(self.target, **target_config)
 
+        saved_diameter_range = production_config.pop("diameter_range", None)
         production_config = {**production_config, **kwargs}
         self.production = Production.maker(self.production, target=self.target, **production_config)
 
@@ -233,6 +234,8 @@ class Simulation(CratermakerBase):
         self._max_crater_diameter_range = (min(self.surface.face_size), self.target.diameter)
         self.smallest_crater = max(self.smallest_crater, self._max_crater_diameter_range[0])
         self.largest_crater = min(self.largest_crater, self._max_crater_diameter_range[1])
+        if saved_diameter_range is not None and "diameter_range" not in production_config and not self.is_new:
+            self.production.diameter_range = saved_diameter_range
         if self.production._Crater is None:
             self.production._Crater = self.Crater
             if self.production.quasimc_craters is not None:
-- 
2.43.0


From 38a0f59619720464476d9af9cbc7bf0e8e96a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:38 +0000
Subject: [PATCH 42/82] fix: a resumed simulation did not continue its random
 number stream

---
 cratermaker/core/simulation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 5eb6fce..a857cbf 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -128,6 +128,13 @@ class Simulation(CratermakerBase):
         else:
             config_file = None
 
+        saved_rng_state = None
+        if config_file is not None and rng is None and rng_seed is None and rng_state is None:
+            with Path.open(config_file) as f:
+                saved_config = yaml.safe_load(f) or {}
+            self._rng_seed = saved_config.get("rng_seed")
+            saved_rng_state = saved_config.get("rng_state")
+
         component_args = {
             "target": target,
             "scaling": scaling,
@@ -251,6 +258,10 @@ class Simulation(CratermakerBase):
         if save_actions != "default" or "save_actions" not in matched:
             self.save_actions = save_actions
 
+        if saved_rng_state is not None and not self.is_new:
+            # Continue with the saved random number stream
+            self.rng.bit_generator.state = saved_rng_state
+
         self.to_config()
 
         return
-- 
2.43.0


From d2fcd3fd62b9c5f00d4f01a908740f3d5e6fe443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:07 +0000
Subject: [PATCH 43/82] fix: the projectile settings of a simulation were not
 saved, so that it could not be resumed

---
 cratermaker/components/projectile/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/projectile/__init__.py b/cratermaker/components/projectile/__init__.py
index e8d8f35..24e7357 100644
--- a/cratermaker/components/projectile/__init__.py
+++ b/cratermaker/components/projectile/__init__.py
@@ -250,6 +250,11 @@ class Projectile(ComponentBase):
             or density is not None
         )
 
+        # The values given by the user are part of the configuration
+        given = {"mean_velocity": mean_velocity, "density": density}
+        if not sample:
+            given.update({"sample": sample, "velocity": velocity, "angle": angle, "direction": direction, "location": location})
+
         projectile = super().maker(
             component=projectile,
             mean_velocity=mean_velocity,
@@ -266,7 +271,7 @@ class Projectile(ComponentBase):
             **kwargs,
         )
         if isfresh:
-            return projectile.new_projectile(
+            projectile = projectile.new_projectile(
                 velocity=velocity,
                 angle=angle,
                 direction=direction,
@@ -274,8 +279,8 @@ class Projectile(ComponentBase):
                 density=density,
                 **kwargs,
             )
-        else:
-            return projectile
+            projectile._user_defined.update(name for name, value in given.items() if value is not None)
+        return projectile
 
     def new_projectile(
         self,
-- 
2.43.0


From a899effff8486bedc3a007f1fc12ef0d6fdb69be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 44/82] fix: the density given for a target was replaced by
 that of its material

---
 cratermaker/components/scaling/montecarlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index e31b463..4623744 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -108,6 +108,8 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
 
         if material is None:
+            # Setting the material also sets the density, but here the target's own density is the one to use
+            density = self.target.density if density is None else density
             self.material = self.target.material
         else:
             self.material = material
-- 
2.43.0


From a3b87da637f692ae1f31858b3181e5e55b506c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:42 +0000
Subject: [PATCH 45/82] fix: a resumed simulation forgot the density given for
 its target

---
 cratermaker/core/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index a857cbf..1354186 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -181,6 +181,9 @@ class Simulation(CratermakerBase):
         projectile_config = {**projectile_config, **kwargs}
         self.projectile = Projectile.maker(self.projectile, target=self.target, **projectile_config)
 
+        if "density" in target_config and "material" in scaling_config and "material" not in kwargs:
+            # Setting the material also sets the density, so the saved density must be restored as well
+            scaling_config.setdefault("density", target_config["density"])
         scaling_config = {**scaling_config, **kwargs}
         self.scaling = Scaling.maker(
             self.scaling,
-- 
2.43.0


From c725df47c4aabca527b70d3d6067350ffebb165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:04 +0000
Subject: [PATCH 46/82] fix: resuming a run that was interrupted while saving
 repeated the interval on top of its own data

---
 cratermaker/components/counting/__init__.py | 8 ++++++--
 cratermaker/components/surface/__init__.py  | 4 +++-
 cratermaker/core/simulation.py              | 5 +++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a56b540..78a183f 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -48,6 +48,7 @@ class Counting(ComponentBase):
         self,
         surface: Surface | LocalSurface,
         reset: bool = True,
+        interval: int = -1,
         **kwargs: Any,
     ):
         """
@@ -59,6 +60,8 @@ class Counting(ComponentBase):
             The surface or local surface view to be counted.
         reset : bool, optional
             Flag to indicate whether to reset the count and delete any old output files. Default is True.
+        interval : int, optional
+            The saved interval to read when not resetting. Default is -1, which is the last one.
         **kwargs : Any
             |kwargs|
         """
@@ -86,8 +89,9 @@ class Counting(ComponentBase):
 
         if not reset:
             # An interval without any craters has no file, so the last saved file is not necessarily from the last saved interval
-            saved = [*self.get_saved_interval_numbers(), (self._surface.get_saved_interval_numbers() or [None])[0]]
-            interval = max((i for numbers in saved for i in numbers or []), default=-1)
+            if interval < 0:
+                saved = [*self.get_saved_interval_numbers(), (self._surface.get_saved_interval_numbers() or [None])[0]]
+                interval = max((i for numbers in saved for i in numbers or []), default=-1)
             observed, emplaced = self.read_saved_output(interval=interval)
             if observed:
                 observed = self.Crater.from_xarray(observed, interval=interval)
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 7f0b56f..e0e9bc2 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -1096,7 +1096,9 @@ class Surface(ComponentBase):
         if regrid:
             self.ask_overwrite = False
 
-        # Read in only the last saved data file
+        # Read in only the last saved data file, unless there is one for the requested interval
+        if interval not in ((self.get_saved_interval_numbers() or [None])[0] or []):
+            interval = -1
         uxds = self.read_saved_output(interval=interval, reset=reset, **kwargs)
         if "interval" in uxds.dims:
             uxds = uxds.isel(interval=-1)
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 1354186..4276f0e 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -200,6 +200,10 @@ class Simulation(CratermakerBase):
             surface_config["superdomain_scale_factor"] = (
                 None  # This will trigger setting of the superdomain after the Morphology and Scaling models are set
             )
+        # The saved data of a later interval may exist if the previous run was interrupted while saving
+        saved_interval = matched.get("interval", -1) if config_file is not None else -1
+        surface_config["interval"] = saved_interval
+
         self.surface = Surface.maker(
             self.surface,
             target=self.target,
@@ -215,6 +219,7 @@ class Simulation(CratermakerBase):
             self.counting,
             surface=self.surface,
             reset=self.is_new,
+            interval=saved_interval,
             **counting_config,
         )
 
-- 
2.43.0


From 979eaca8122d6e6b4efeb76c235345f6e7386000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 47/82] fix: a resumed simulation forgot the mass and
 transition type given for its target

---
 cratermaker/components/target/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/target/__init__.py b/cratermaker/components/target/__init__.py
index 6011b59..d6e8163 100644
--- a/cratermaker/components/target/__init__.py
+++ b/cratermaker/components/target/__init__.py
@@ -270,7 +270,7 @@ class Target(ComponentBase):
         if self.radius is not None:
             return 2 * np.pi * self.radius
 
-    @property
+    @parameter
     def mass(self) -> float | None:
         """The mass of the target body in kilograms."""
         return self._mass
@@ -350,7 +350,7 @@ class Target(ComponentBase):
         """The key used to identify the property used as the key in a catalogue."""
         return "name"
 
-    @property
+    @parameter
     def transition_scale_type(self):
         """The type of simple-to-complex transition scaling used for the surface, either 'silicate' or 'ice'."""
         return self._transition_scale_type
-- 
2.43.0


From 05826d00bd38c60866f41f0b3d0938a57390e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 48/82] fix: a resumed simulation forgot the coefficient and
 slope of its power law production

---
 cratermaker/components/production/powerlaw.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 01a06ce..1c4d38d 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike, NDArray
 
 from cratermaker.components.production import Production
 from cratermaker.constants import FloatLike
+from cratermaker.utils.general_utils import parameter
 
 
 @Production.register("powerlaw")
@@ -194,7 +195,7 @@ class PowerLawProduction(Production):
         """
         return self.N1_coef * diameter**self.slope
 
-    @property
+    @parameter
     def N1_coef(self):
         """The N1 coefficient of the power law production function."""
         return self._N1_coef
@@ -207,7 +208,7 @@ class PowerLawProduction(Production):
             raise ValueError("N1_coef must be positive")
         self._N1_coef = value
 
-    @property
+    @parameter
     def slope(self):
         """The slope of the power law production function."""
         return self._slope
-- 
2.43.0


From 126d51bb6e9fcdc5c0bca8acbfa4e8d70aa058fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 49/82] fix: a resumed simulation forgot that Monte Carlo
 scaling was turned off

---
 cratermaker/components/scaling/montecarlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/scaling/montecarlo.py b/cratermaker/components/scaling/montecarlo.py
index 4623744..c18222d 100644
--- a/cratermaker/components/scaling/montecarlo.py
+++ b/cratermaker/components/scaling/montecarlo.py
@@ -105,7 +105,8 @@ class MonteCarloScaling(Scaling):
         object.__setattr__(self, "_simple_enlargement_factor", None)
         object.__setattr__(self, "_final_exp", None)
         object.__setattr__(self, "_material_catalogue", None)
-        object.__setattr__(self, "_montecarlo_scaling", monte_carlo_scaling)
+        object.__setattr__(self, "_montecarlo_scaling", None)
+        self.monte_carlo_scaling = monte_carlo_scaling
 
         if material is None:
             # Setting the material also sets the density, but here the target's own density is the one to use
-- 
2.43.0


From cf469327802f9351dca0cf7e2e6631d2c1054e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 50/82] fix: a simulation interrupted in its first save was
 resumed with data ahead of its progress

---
 cratermaker/core/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 4276f0e..8ac2408 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -201,7 +201,7 @@ class Simulation(CratermakerBase):
                 None  # This will trigger setting of the superdomain after the Morphology and Scaling models are set
             )
         # The saved data of a later interval may exist if the previous run was interrupted while saving
-        saved_interval = matched.get("interval", -1) if config_file is not None else -1
+        saved_interval = matched.get("interval", 0) if config_file is not None else -1
         surface_config["interval"] = saved_interval
 
         self.surface = Surface.maker(
-- 
2.43.0


From bffed823f43b7503f611513cb27961a521fc067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 51/82] fix: the name of a crater was lost when it was copied
 or read back

---
 cratermaker/components/crater/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index ff09fa4..9f4d06d 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -965,7 +965,7 @@ class Crater(ComponentBase):
 
             measured_orientation = args.pop("measured_orientation", None)
             measured_location = args.pop("measured_location", None)
-            name = args.pop("name", None)
+            name = args.pop("name", name)
             if crater is not None:
                 mt = crater.morphology_type
             else:
-- 
2.43.0


From f7f1d08cee5da07b93f57d8427364a05aef824b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 52/82] fix: a resumed simulation forgot the ejecta options
 given to its morphology

---
 cratermaker/components/morphology/basicmoon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/basicmoon.py b/cratermaker/components/morphology/basicmoon.py
index 5831193..d109f64 100644
--- a/cratermaker/components/morphology/basicmoon.py
+++ b/cratermaker/components/morphology/basicmoon.py
@@ -165,9 +165,9 @@ class BasicMoonMorphology(Morphology):
         """
         object.__setattr__(self, "_ejecta_truncation", None)
         object.__setattr__(self, "_node", None)
+        super().__init__(surface=surface, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         self.ejecta_truncation = ejecta_truncation
         self.dorays = dorays
-        super().__init__(surface=surface, rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         return
 
     def __str__(self) -> str:
-- 
2.43.0


From 5716a9b78d2ace12de0a71d528d37e3083cae4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:23 +0000
Subject: [PATCH 53/82] fix: exporting an earlier interval replaced its saved
 data with the current surface

---
 cratermaker/components/surface/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index e0e9bc2..ff6c79c 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -2800,7 +2800,9 @@ class LocalSurface(CratermakerBase):
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
-        if interval is not None:
+        # Save the current state if it is to be exported as a new interval, but leave the states that are already saved as they are
+        saved_intervals = (self.surface.get_saved_interval_numbers() or [None])[0] or []
+        if interval is not None and interval >= 0 and interval not in saved_intervals:
             self.surface.save(interval=interval, **kwargs, skip_actions=True)
         if driver.upper() in ["VTK", "VTP"]:
             self.to_vtk_file(
-- 
2.43.0


From dd52f7efbd20a145300dad6ca2bdd6a41bdb5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:23 +0000
Subject: [PATCH 54/82] fix: values that the first crater does not have were
 left out of CSV files

---
 cratermaker/components/counting/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 78a183f..d59e78b 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1379,7 +1379,7 @@ class Counting(ComponentBase):
         print(f"Saving crater data to CSV file: '{output_file}'...")
         with output_file.open(mode="w", newline="") as csvfile:
             writer = csv.writer(csvfile)
-            header_written = False
+            rows = []
             for crater in craters:
                 crater_dict = crater.as_dict(skip_complex_data=True)
                 crater_dict = _convert_tuple_vars(input_dict=crater_dict, inverse=False)
@@ -1408,12 +1408,14 @@ class Counting(ComponentBase):
                     if v is None:
                         crater_dict[k] = ""
 
-                if not header_written:
-                    header = list(crater_dict.keys())
-                    writer.writerow(header)
-                    header_written = True
-                row = [crater_dict.get(key, "") for key in header]
-                writer.writerow(row)
+                rows.append(crater_dict)
+
+            # The craters may have different sets of values (e.g. only some of them are circular)
+            header = list(dict.fromkeys(key for row in rows for key in row))
+            if rows:
+                writer.writerow(header)
+            for row in rows:
+                writer.writerow([row.get(key, "") for key in header])
 
         return
 
-- 
2.43.0


From 8b77a7b857743ceb77f477e8d7eff7dc085a7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:23 +0000
Subject: [PATCH 55/82] fix: exporting the observed craters directly failed

---
 cratermaker/components/counting/__init__.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index d59e78b..7d92c77 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -977,13 +977,9 @@ class Counting(ComponentBase):
             raise ValueError("crater_type must be 'observed' or 'emplaced'")
         if craters is None:
             craters = getattr(self, crater_type)
-        if type(craters) is dict:
-            if type(list(craters.values())[0]) is xr.Dataset:  # like multi-interval dicts keyed by interval
-                crater_ds = craters.get(
-                    interval, []
-                )  # Get the dataset for the specified interval, or an empty dataset if not found
-            else:
-                return list(crater_ds.values())  # like observed dicts keyed by crater id
+        if isinstance(craters, dict) and any(isinstance(c, xr.Dataset) for c in craters.values()):
+            # like multi-interval dicts keyed by interval. Get the dataset for the specified interval, or none if not found
+            craters = craters.get(interval, [])
 
         if isinstance(craters, dict):
             craters = list(craters.values())
-- 
2.43.0


From d2c9f3e45dd6d5510cd1a77738beb5c498af7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:53 +0000
Subject: [PATCH 56/82] fix: a component was reset, and its saved data
 replaced, although the user had refused

---
 cratermaker/components/counting/__init__.py | 3 +--
 cratermaker/core/base.py                    | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 7d92c77..347af04 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -163,11 +163,10 @@ class Counting(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
+        super().reset(**kwargs)
         self.surface.add_tag(name="crater_id", long_name=_TALLY_LONG_NAME, tag=None, n_layer=self.n_layer)
         self._emplaced = []
         self._observed = {}
-
-        super().reset(**kwargs)
         return
 
     def add(self, crater: MorphologyCrater, **kwargs: Any) -> MorphologyCrater:
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 74bab87..ddd3c5a 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -109,8 +109,7 @@ class CratermakerBase:
         if files_to_remove is None:
             files_to_remove = self.saved_output_files()
         if files_to_remove and not self._overwrite_check(files_to_remove):
-            print("Reset operation cancelled by user.")
-            return
+            raise RuntimeError("User aborted the reset operation.")
 
     def to_config(self, remove_common_args: bool = False, **kwargs: Any) -> dict[str, Any]:
         """
-- 
2.43.0


From 6c1f007f85d529efbc02417bce199520e1f8f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:53 +0000
Subject: [PATCH 57/82] fix: the first saved state of a surface was removed
 before the user was asked

---
 cratermaker/components/surface/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index ff6c79c..091796e 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -4365,10 +4365,11 @@ class LocalSurface(CratermakerBase):
                 return uxr.UxDataset(uxgrid=self.uxgrid)
 
         if reset:
-            interval = 0
-            filename = self.output_dir / self.output_filename(interval)
-            filename.unlink(missing_ok=True)
-        files = super().read_saved_output(interval=interval, **kwargs)
+            # Only the grid is needed. The saved data is removed later, if the user agrees
+            with xr.open_dataset(self.grid_file) as files:
+                files.load()
+        else:
+            files = super().read_saved_output(interval=interval, **kwargs)
         if isinstance(files, tuple):
             ds, grid = files
         else:
-- 
2.43.0


From a62a88346e2c1e82daeb5ed2bd99410105a03cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:31 +0000
Subject: [PATCH 58/82] fix: exported CSV files of craters could not be read
 back

---
 cratermaker/components/crater/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 9f4d06d..1b8f8c3 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1322,6 +1322,7 @@ class Crater(ComponentBase):
                         except ValueError:
                             crater_data[key] = value
                 crater_data = {k: v for k, v in crater_data.items() if v is not None}
+                crater_data.pop("id", None)  # The id follows from the properties of the crater
                 crater = cls.maker(**crater_data, check_redundant_inputs=False)
                 craters.append(crater)
 
-- 
2.43.0


From 4358b9b805e3290b8848b652c7779eed917adcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:31 +0000
Subject: [PATCH 59/82] fix: the name of a crater read from a CSV file was
 taken for a number

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 1b8f8c3..3fac3f6 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1305,6 +1305,8 @@ class Crater(ComponentBase):
                 for key, value in crater_data.items():
                     if key in ["id", "production_sequence"]:
                         crater_data[key] = int(value)
+                    elif key == "name":
+                        continue
                     elif isinstance(value, tuple | list):
                         vnew = []
                         for v in value:
-- 
2.43.0


From f420d51fc65fdd93d215e3239da76a974362be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:45 +0000
Subject: [PATCH 60/82] fix: reading craters of one interval failed when other
 intervals or craters had values it does not have

---
 cratermaker/components/crater/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index 3fac3f6..a79aa9c 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1378,7 +1378,9 @@ class Crater(ComponentBase):
         craters = []
         if type(dataset) is dict:
             if interval is None:
-                dataset = dataset[-1]
+                if not dataset:
+                    return craters
+                dataset = dataset[max(dataset)]
             elif interval in dataset:
                 dataset = dataset[interval]
             else:
@@ -1398,12 +1400,14 @@ class Crater(ComponentBase):
         for id in tqdm(dataset.id.data, desc="Converting xarray Dataset to Crater objects", unit="crater", position=0, leave=False):
             crater_data = dataset.sel(id=id).to_dict()["data_vars"]
             crater_data = {k: v["data"] for k, v in crater_data.items()}
-            if not isinstance(crater_data["semimajor_axis"], (float, int)):
+            # Skip the craters of other intervals, which have no data in this one
+            if not isinstance(crater_data["semimajor_axis"], (float, int)) or np.isnan(crater_data["semimajor_axis"]):
                 continue
             crater_data = _convert_tuple_vars(input_dict=crater_data, inverse=True)
-            for k, v in crater_data.items():
-                if v is not None and np.any(np.isreal(v)) and np.any(np.isnan(v)):
-                    crater_data[k] = None
+            # Leave out the values that this crater does not have
+            for k, v in list(crater_data.items()):
+                if v is None or (np.any(np.isreal(v)) and np.any(np.isnan(v))):
+                    crater_data.pop(k)
             crater = cls.maker(**crater_data, check_redundant_inputs=False)
             craters.append(crater)
 
-- 
2.43.0


From 799d84a356f9c1de721541eba6433d9cee99952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:13 +0000
Subject: [PATCH 61/82] fix: a fitted rim was mixed with the axes measured
 earlier

---
 cratermaker/components/counting/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 347af04..58466e0 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -285,6 +285,9 @@ class Counting(ComponentBase):
             fit_ellipse,
         )
 
+        # Forget the earlier axes first, otherwise each new one would be compared with the earlier value of the other
+        crater.measured_semimajor_axis = None
+        crater.measured_semiminor_axis = None
         crater.measured_semimajor_axis = ap
         crater.measured_semiminor_axis = bp
         crater.measured_orientation = np.degrees(orientation)
-- 
2.43.0


From 36b2440b010ce7ff991f5920a07bea338991b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:13 +0000
Subject: [PATCH 62/82] fix: tallying the craters of a region failed with a
 NameError

---
 cratermaker/components/counting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 58466e0..f253ee1 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -354,6 +354,8 @@ class Counting(ComponentBase):
         .. [#] Minton, D.A., Fassett, C.I., Hirabayashi, M., Howl, B.A., Richardson, J.E., (2019). The equilibrium size-frequency distribution of small craters reveals the effects of distal ejecta on lunar landscape morphology. Icarus 326, 63-87. `doi: 10.1016/j.icarus.2019.02.021 <https://doi.org/10.1016/j.icarus.2019.02.021>`_
 
         """
+        from cratermaker.components.surface import LocalSurface
+
         if region is None:
             region = self.surface
             if hasattr(self.surface, "crater_id"):
-- 
2.43.0


From 0cce06f7b121ee1f8ed72d8ad9072f1ace4f8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:13 +0000
Subject: [PATCH 63/82] fix: the rim fitting options of a tally applied only to
 its first crater

---
 cratermaker/components/counting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index f253ee1..922b52f 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -369,6 +369,8 @@ class Counting(ComponentBase):
 
         unique_ids = np.unique(id_array[id_array > 0])
         remove_ids = []
+        fit_center = kwargs.pop("fit_center", False)
+        fit_ellipse = kwargs.pop("fit_ellipse", False)
 
         if quiet:
             iterable = unique_ids
@@ -392,8 +394,6 @@ class Counting(ComponentBase):
             crater = self.observed[id]
             # TODO: Make the fit_rim function more reliable before turning it on by default. It is currently very slow and not reliable enough.
             if measure_rim:
-                fit_center = kwargs.pop("fit_center", False)
-                fit_ellipse = kwargs.pop("fit_ellipse", False)
                 crater = self.fit_rim(crater=crater, fit_center=fit_center, fit_ellipse=fit_ellipse, **kwargs)
             Kd = self.measure_degradation_state(crater, **kwargs)
             Kv = self.visibility_function(crater, **kwargs)
-- 
2.43.0


From 43babc522a1c1780d5e99b870778cc136362196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 64/82] fix: know the units of the quasi-Monte Carlo data
 before processing it

---
 cratermaker/components/production/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index ed00de7..d7d9d04 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -71,6 +71,9 @@ class Production(ComponentBase):
         object.__setattr__(self, "_diameter_range", None)
         object.__setattr__(self, "_Crater", None)
         self.diameter_range = diameter_range
+        # The units of the quasi-Monte Carlo data are needed to process it
+        self.N_conversion_factor = N_conversion_factor
+        self.D_conversion_factor = D_conversion_factor
 
         if quasimc_file is not None and quasimc_craters is not None:
             raise ValueError("Cannot provide both quasimc_file and quasimc_craters")
@@ -79,8 +82,6 @@ class Production(ComponentBase):
             self.quasimc_file = quasimc_file
         if quasimc_craters is not None:
             self.quasimc_craters += quasimc_craters
-        self.N_conversion_factor = N_conversion_factor
-        self.D_conversion_factor = D_conversion_factor
 
     def __str__(self) -> str:
         str_repr = super().__str__()
-- 
2.43.0


From 52908076be34a1fa0390103f529f8e38d1357894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 65/82] fix: convert the diameter of production_ND with
 D_conversion_factor

---
 cratermaker/components/production/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cratermaker/components/production/__init__.py b/cratermaker/components/production/__init__.py
index d7d9d04..ab3234b 100644
--- a/cratermaker/components/production/__init__.py
+++ b/cratermaker/components/production/__init__.py
@@ -990,7 +990,7 @@ class Production(ComponentBase):
             elif crater.production_ND is not None and crater.production_ND != [None, None, None]:
                 # N(D) values take precedence over time values
                 prod_diam, nmean, nsig = crater.production_ND
-                prod_diam *= 1e3
+                prod_diam *= self.D_conversion_factor
                 nmean /= self.N_conversion_factor
                 nsig /= self.N_conversion_factor
                 # Convert from N(prod_diam) to N(1) for alignment
@@ -1074,7 +1074,7 @@ class Production(ComponentBase):
                     crater = valid_craters[i]
                     if crater.production_ND is not None and crater.production_ND != [None, None, None]:
                         prod_diam, nmean, nstdev = crater.production_ND
-                        prod_diam *= 1e3
+                        prod_diam *= self.D_conversion_factor
                         nmean /= self.N_conversion_factor
                         nstdev /= self.N_conversion_factor
                         # Convert from N(prod_diam) to N(1) for alignment
-- 
2.43.0


From 6276ab109cc54887aa434c48b6421d6cee114023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 66/82] fix: let a power law production take quasi-Monte Carlo
 craters at construction

---
 cratermaker/components/production/powerlaw.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cratermaker/components/production/powerlaw.py b/cratermaker/components/production/powerlaw.py
index 1c4d38d..0b18cbf 100644
--- a/cratermaker/components/production/powerlaw.py
+++ b/cratermaker/components/production/powerlaw.py
@@ -51,6 +51,11 @@ class PowerLawProduction(Production):
         **kwargs : Any
             |kwargs|
         """
+        # The quasi-Monte Carlo craters are dated with the power law, so they have to wait for its parameters
+        quasimc_file = kwargs.pop("quasimc_file", None)
+        quasimc_craters = kwargs.pop("quasimc_craters", None)
+        if quasimc_file is not None and quasimc_craters is not None:
+            raise ValueError("Cannot provide both quasimc_file and quasimc_craters")
         super().__init__(rng=rng, rng_seed=rng_seed, rng_state=rng_state, **kwargs)
         self.generator_type = generator_type
 
@@ -79,6 +84,11 @@ class PowerLawProduction(Production):
             slope *= -1
         self.slope = slope
 
+        if quasimc_file is not None:
+            self.quasimc_file = quasimc_file
+        if quasimc_craters is not None:
+            self.quasimc_craters = quasimc_craters
+
     def __str__(self) -> str:
         str_repr = super().__str__()
         str_repr += "N1 Coefficient: {self.N1_coef:.2e}\n"
-- 
2.43.0


From 6dbf0d7d114a181a7d0a8f755bea0f8d18ea226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 67/82] fix: keep the Neukum version that the user chose when a
 run is resumed

---
 cratermaker/core/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index ddd3c5a..2ca500b 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -68,7 +68,9 @@ class CratermakerBase:
         ask_overwrite: bool | None = None,
         **kwargs,
     ):
-        object.__setattr__(self, "_user_defined", set())
+        # Parameters that were set before this point are kept
+        if "_user_defined" not in self.__dict__:
+            object.__setattr__(self, "_user_defined", set())
         object.__setattr__(self, "_rng", None)
         object.__setattr__(self, "_rng_seed", None)
         object.__setattr__(self, "_rng_state", None)
-- 
2.43.0


From 405380278078950166c3cd2b111e0baa1853af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 68/82] fix: restore ask_overwrite when an export fails

---
 cratermaker/components/counting/__init__.py |  7 +++----
 cratermaker/components/surface/__init__.py  |  7 +++----
 cratermaker/core/base.py                    | 17 +++++++++++++++++
 cratermaker/core/simulation.py              |  7 +++----
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 922b52f..5a968a6 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -21,7 +21,7 @@ from cratermaker.bindings import counting_bindings
 from cratermaker.components.crater import _TALLY_LONG_NAME, Crater
 from cratermaker.components.morphology import Morphology, MorphologyCrater
 from cratermaker.constants import VECTOR_DRIVER_TO_EXTENSION_MAP, FloatLike
-from cratermaker.core.base import ComponentBase, import_components
+from cratermaker.core.base import ComponentBase, import_components, restores_ask_overwrite
 
 DRIVER_TO_EXTENSION_MAP = {"SCC": "scc", "VTK": "vtp", "VTP": "vtp", "CSV": "csv", **VECTOR_DRIVER_TO_EXTENSION_MAP}
 
@@ -508,6 +508,7 @@ class Counting(ComponentBase):
         super().save(**save_args)
         return
 
+    @restores_ask_overwrite
     def export(
         self,
         crater_type: Literal["observed", "emplaced", "both"] = "both",
@@ -536,8 +537,7 @@ class Counting(ComponentBase):
         if driver.upper() not in self.valid_drivers:
             return
 
-        # Temporarily set the ask_overwrite attribute for the duration of the export, but reset it to its original value afterwards.
-        ask_overwrite_orig = self.ask_overwrite
+        # Set the ask_overwrite attribute for the duration of the export
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
         if crater_type not in ["observed", "emplaced", "both"]:
@@ -598,7 +598,6 @@ class Counting(ComponentBase):
                         **kwargs,
                     )
 
-        self.ask_overwrite = ask_overwrite_orig
         return
 
     def plot(
diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 091796e..4ea5810 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -33,7 +33,7 @@ from vtk import vtkUnstructuredGrid
 from cratermaker.bindings import surface_bindings
 from cratermaker.components.target import Target
 from cratermaker.constants import _SMALLFAC, _VSMALL, FloatLike, PairOfFloats
-from cratermaker.core.base import ComponentBase, CratermakerBase, import_components
+from cratermaker.core.base import ComponentBase, CratermakerBase, import_components, restores_ask_overwrite
 from cratermaker.utils.general_utils import format_large_units, validate_and_normalize_location
 from cratermaker.utils.montecarlo_utils import get_random_location_on_face
 
@@ -2770,6 +2770,7 @@ class LocalSurface(CratermakerBase):
 
         return radial_gradient
 
+    @restores_ask_overwrite
     def export(
         self,
         driver: str = "GPKG",
@@ -2795,8 +2796,7 @@ class LocalSurface(CratermakerBase):
         """
         from cratermaker.constants import VECTOR_DRIVER_TO_EXTENSION_MAP
 
-        # Temporarily set the ask_overwrite attribute for the duration of the export, but reset it to its original value afterwards.
-        ask_overwrite_orig = self.ask_overwrite
+        # Set the ask_overwrite attribute for the duration of the export
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
@@ -2820,7 +2820,6 @@ class LocalSurface(CratermakerBase):
                 interval=interval,
                 **kwargs,
             )
-        self.ask_overwrite = ask_overwrite_orig
         return
 
     def to_vector_file(
diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 2ca500b..41562fb 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import functools
 import importlib
 import pkgutil
 import re
@@ -892,6 +893,22 @@ class ComponentBase(CratermakerBase, ABC):
         return list(cls._registry.keys())
 
 
+def restores_ask_overwrite(method):
+    """
+    Decorate a method that changes the ask_overwrite attribute temporarily, so that it is reset to its original value when the method returns or fails.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        ask_overwrite = self.ask_overwrite
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self.ask_overwrite = ask_overwrite
+
+    return wrapper
+
+
 def import_components(package_name: str, package_path: list[str]) -> None:
     """
     Import all modules of a component package, optionally skipping private modules.
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8ac2408..8431532 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -18,7 +18,7 @@ from cratermaker.components.surface import Surface
 from cratermaker.components.surface.hireslocal import HiResLocalSurface
 from cratermaker.components.target import Target
 from cratermaker.constants import _COMPONENT_NAMES, _CONFIG_FILE_NAME, _DSTD, FloatLike, PairOfFloats
-from cratermaker.core.base import CratermakerBase, _convert_for_yaml
+from cratermaker.core.base import CratermakerBase, _convert_for_yaml, restores_ask_overwrite
 from cratermaker.utils.general_utils import _set_properties, format_large_units, parameter
 
 
@@ -927,6 +927,7 @@ class Simulation(CratermakerBase):
 
         return
 
+    @restores_ask_overwrite
     def export(
         self,
         driver: str = "OpenCraterTool",
@@ -952,8 +953,7 @@ class Simulation(CratermakerBase):
         -----
         The default driver is 'OpenCraterTool', which is designed to output data into a format that is relatively easy to import into QGIS with the OpenCraterTool plugin. This will create a GeoTIFF file representation of the surface, and a set of SCC files for the crater counting data if counting is enabled.
         """
-        # Temporarily set the ask_overwrite attribute for the duration of the export, but reset it to its original value afterwards.
-        ask_overwrite_orig = self.ask_overwrite
+        # Set the ask_overwrite attribute for the duration of the export
         if ask_overwrite is not None:
             self.ask_overwrite = ask_overwrite
 
@@ -979,7 +979,6 @@ class Simulation(CratermakerBase):
             ask_overwrite=ask_overwrite,
             **kwargs,
         )
-        self.ask_overwrite = ask_overwrite_orig
 
         return
 
-- 
2.43.0


From bd62c5e6f19b63e976db2484c026383669802f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 69/82] fix: tally a queue of craters with the options of the
 caller every time

---
 cratermaker/components/morphology/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index ad7b963..c7d4641 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -731,8 +731,7 @@ class Morphology(ComponentBase):
                 self._queue_manager.pop_batch(batch)
                 nacumulated += len(batch)
                 if self.do_counting and nacumulated >= tally_cadence:
-                    measure_rim = kwargs.pop("measure_rim", False)
-                    self.counting.tally(measure_rim=measure_rim, quiet=False, **kwargs)
+                    self.counting.tally(quiet=False, **kwargs)
                     nacumulated = 0
 
             return
-- 
2.43.0


From 808d06a6615558830addb288c3636a9c3d4444d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 70/82] fix: write the VTK file of craters with the properties
 and style asked for

---
 cratermaker/components/counting/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 5a968a6..a5bfd90 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1332,7 +1332,12 @@ class Counting(ComponentBase):
         if not self._overwrite_check(output_file):
             return
         print(f"Saving crater data to VTK file: '{output_file}'...")
-        poly_data = self.to_vtk_mesh(craters=craters)
+        poly_data = self.to_vtk_mesh(
+            craters=craters,
+            use_measured_properties=use_measured_properties,
+            crater_style=crater_style,
+            crater_size_scale_factor=crater_size_scale_factor,
+        )
 
         # Write the poly_data to a VTK file
         writer = vtkXMLPolyDataWriter()
-- 
2.43.0


From c95a7b855d344b6c2a06b331905fc9a08e64fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 71/82] fix: plot the emplaced craters of an earlier interval

---
 cratermaker/components/counting/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index a5bfd90..5954d39 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -704,7 +704,7 @@ class Counting(ComponentBase):
                     interval = observed_ds.interval.values[-1]
                     observed = self.Crater.from_xarray(observed_ds, interval=interval)
                 if emplaced is None and emplaced_ds:
-                    emplaced_interval = emplaced.interval.values[-1]
+                    emplaced_interval = emplaced_ds.interval.values[-1]
                     if emplaced_interval == interval:
                         emplaced = self.Crater.from_xarray(emplaced_ds, interval=interval)
             filename = self.plot_dir / f"{file_prefix}{interval:06d}.{self.surface.output_image_file_extension}"
-- 
2.43.0


From d9b50ffb9d13129fe590ea5e6870f297663e2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 72/82] fix: plot the craters of the interval asked for

---
 cratermaker/components/counting/__init__.py | 29 +++++----------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 5954d39..e679d74 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -684,29 +684,12 @@ class Counting(ComponentBase):
         if variable_name is not None:
             file_prefix += f"_{variable_name}"
         if interval is not None:
-            observed_intervals, emplaced_intervals = self.get_saved_interval_numbers()
-            # Check if we are in the current interval, otherwise we have to read data from file.
-            trigger_read = False
-            if observed_intervals is not None and (len(observed_intervals) == 0 or observed_intervals[-1] == interval):
-                observed = list(self.observed.values())
-            else:
-                observed = None
-                trigger_read = True
-            if emplaced_intervals is not None and (len(emplaced_intervals) == 0 or emplaced_intervals[-1] == interval):
-                emplaced = self.emplaced
-            else:
-                emplaced = None
-                trigger_read = True
-
-            if trigger_read:
-                observed_ds, emplaced_ds = self.read_saved_output(interval=interval)
-                if observed is None and observed_ds:
-                    interval = observed_ds.interval.values[-1]
-                    observed = self.Crater.from_xarray(observed_ds, interval=interval)
-                if emplaced is None and emplaced_ds:
-                    emplaced_interval = emplaced_ds.interval.values[-1]
-                    if emplaced_interval == interval:
-                        emplaced = self.Crater.from_xarray(emplaced_ds, interval=interval)
+            if interval < 0:
+                # Count back from the last interval that was saved
+                interval = self.surface.get_saved_interval_numbers()[0][interval]
+            observed_ds, emplaced_ds = self.read_saved_output(interval=interval)
+            observed = self.Crater.from_xarray(observed_ds, interval=interval) if observed_ds else None
+            emplaced = self.Crater.from_xarray(emplaced_ds, interval=interval) if emplaced_ds else None
             filename = self.plot_dir / f"{file_prefix}{interval:06d}.{self.surface.output_image_file_extension}"
         else:
             observed = list(self.observed.values())
-- 
2.43.0


From dfecae4bf79dee3afce32fb7c66b57d1c01065b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 73/82] fix: a long queue can be tallied quietly

---
 cratermaker/components/morphology/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/components/morphology/__init__.py b/cratermaker/components/morphology/__init__.py
index c7d4641..6b469d9 100644
--- a/cratermaker/components/morphology/__init__.py
+++ b/cratermaker/components/morphology/__init__.py
@@ -731,7 +731,7 @@ class Morphology(ComponentBase):
                 self._queue_manager.pop_batch(batch)
                 nacumulated += len(batch)
                 if self.do_counting and nacumulated >= tally_cadence:
-                    self.counting.tally(quiet=False, **kwargs)
+                    self.counting.tally(**kwargs)
                     nacumulated = 0
 
             return
-- 
2.43.0


From c7a257a605f5e26c975c155bbab19fd861e42184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 74/82] fix: save settings given as numpy strings and booleans

---
 cratermaker/core/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 41562fb..33985cf 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -1019,7 +1019,7 @@ def _convert_for_yaml(obj):
         return tuple(_convert_for_yaml(v) for v in obj)
     elif isinstance(obj, np.ndarray):
         return obj.tolist()
-    elif isinstance(obj, (np.integer, np.floating)):
+    elif isinstance(obj, np.generic):
         return obj.item()
     elif isinstance(obj, Path):
         return str(obj)
-- 
2.43.0


From f34d907a05b6fb0faf7a94c671f84b8d27b922b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 75/82] fix: replace the configuration file only when the new
 one is complete

---
 cratermaker/core/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index 8431532..b26b147 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -1358,8 +1358,11 @@ class Simulation(CratermakerBase):
 
         # Write the combined configuration to a YAML file
         if save_to_file and not self._config_readonly:
-            with Path.open(self.config_file, "w") as f:
+            # Replace the configuration file only once the new one is complete
+            temp_file = self.config_file.with_name(f"{self.config_file.name}.tmp")
+            with Path.open(temp_file, "w") as f:
                 yaml.safe_dump(sim_config, f, indent=4)
+            temp_file.replace(self.config_file)
 
         return sim_config
 
-- 
2.43.0


From c0e38936c3d4f4503718838e7387812412f7c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 76/82] fix: carry out the save actions of the surface

---
 cratermaker/components/surface/__init__.py   | 10 ++++------
 cratermaker/components/surface/hireslocal.py |  6 +-----
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 4ea5810..5ef48f5 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -684,12 +684,10 @@ class Surface(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
-        return self._full().save(
-            interval=interval,
-            time_variables=time_variables,
-            filename=filename,
-            **kwargs,
-        )
+        save_args = {"interval": interval, "time_variables": time_variables, "filename": filename, **kwargs}
+        self._full().save(**save_args)
+        super().save(**save_args)  # The save actions belong to the surface rather than to the view of it that was saved
+        return
 
     def export(self, driver: str = "GPKG", interval: int | None = None, ask_overwrite: bool | None = None, **kwargs: Any) -> None:
         """
diff --git a/cratermaker/components/surface/hireslocal.py b/cratermaker/components/surface/hireslocal.py
index d49a930..201f899 100644
--- a/cratermaker/components/surface/hireslocal.py
+++ b/cratermaker/components/surface/hireslocal.py
@@ -195,13 +195,9 @@ class HiResLocalSurface(Surface):
         time_variables : dict, optional
             Dictionary containing one or more variable name and value pairs. These will be added to the dataset along the time dimension. Default is None.
         """
-        self._full().save(
-            interval=interval,
-            time_variables=time_variables,
-            **kwargs,
-        )
         if not self.local.grid_file.exists():
             self.local._write_grid_file()
+        super().save(interval=interval, time_variables=time_variables, **kwargs)
 
         return
 
-- 
2.43.0


From 03fe1aafb97f5ad0f74963bf00e22205a45460d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 77/82] fix: keep save actions added to a component when a
 simulation is resumed

---
 cratermaker/core/base.py       | 2 +-
 cratermaker/core/simulation.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cratermaker/core/base.py b/cratermaker/core/base.py
index 33985cf..9c5ceb1 100644
--- a/cratermaker/core/base.py
+++ b/cratermaker/core/base.py
@@ -547,7 +547,7 @@ class CratermakerBase:
                 raise TypeError(
                     f"Arguments for action {action_name} must be a dictionary of keyword arguments to be passed to the {self.name}.{action_name}() method."
                 )
-        self._save_actions.append(action)
+        self.save_actions = [*self.save_actions, action]
         return
 
     @parameter
diff --git a/cratermaker/core/simulation.py b/cratermaker/core/simulation.py
index b26b147..a71febe 100644
--- a/cratermaker/core/simulation.py
+++ b/cratermaker/core/simulation.py
@@ -168,6 +168,8 @@ class Simulation(CratermakerBase):
         target_config = unmatched.pop("target_config", {})
         projectile_config = unmatched.pop("projectile_config", {})
         counting_config = unmatched.pop("counting_config", {})
+        surface_save_actions = surface_config.pop("save_actions", None)
+        counting_save_actions = counting_config.pop("save_actions", None)
         kwargs.update(unmatched)
         kwargs = {**kwargs, **vars(self.common_args)}
 
@@ -263,6 +265,10 @@ class Simulation(CratermakerBase):
             skip_components = ["surface"]
             self.reset(skip_component=skip_components)
 
+        if surface_save_actions is not None:
+            self.surface.save_actions = surface_save_actions
+        if counting_save_actions is not None:
+            self.counting.save_actions = counting_save_actions
         if save_actions != "default" or "save_actions" not in matched:
             self.save_actions = save_actions
 
-- 
2.43.0


From 0a90a51987e8dda9f2a2b095391816915d48b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 78/82] fix: export craters in SCC format without naming an
 interval

---
 cratermaker/components/counting/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index e679d74..3f20bd6 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1446,7 +1446,8 @@ class Counting(ComponentBase):
 
         region_poly = None
 
-        output_file = self.export_dir / f"{crater_type}{interval:06d}.scc"
+        interval_label = "" if interval is None else f"{interval:06d}"
+        output_file = self.export_dir / f"{crater_type}{interval_label}.scc"
         if not self._overwrite_check(output_file):
             return
         print(f"Saving crater data to {output_file}")
-- 
2.43.0


From dc525c12b34a32898dde09da90137d9324fe6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 79/82] fix: compare craters with the outline of their region
 across the antimeridian

---
 cratermaker/components/counting/__init__.py | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cratermaker/components/counting/__init__.py b/cratermaker/components/counting/__init__.py
index 3f20bd6..9dbfdf6 100644
--- a/cratermaker/components/counting/__init__.py
+++ b/cratermaker/components/counting/__init__.py
@@ -1434,13 +1434,17 @@ class Counting(ComponentBase):
         def overlap_fraction(crater, region_poly=None):
             if region_poly is None:
                 return 1.0
-            distance = self.surface.compute_distances(reference_location=self.surface.local_location, locations=[crater.location])
-            if distance + crater.measured_radius > self.surface.local_radius:
-                crater_poly = crater.to_geoseries(
-                    surface=self.surface, split_antimeridian=False, use_measured_properties=True
-                ).to_crs(self.surface.crs)
-                overlap_area = crater_poly.intersection(region_poly).to_crs(self.surface.local.crs).area.item()
-                return overlap_area / crater_poly.to_crs(self.surface.local.crs).area.item()
+            distance = self.surface.compute_distances(
+                reference_location=self.surface.local_location, locations=[crater.measured_location]
+            )
+            if distance + crater.measured_semimajor_axis > self.surface.local_radius:
+                # Compare the outlines in the projection of the region, where they are not broken at the antimeridian
+                crater_poly = (
+                    crater.to_geoseries(surface=self.surface, split_antimeridian=False, use_measured_properties=True)
+                    .to_crs(self.surface.local.crs)
+                    .item()
+                )
+                return crater_poly.intersection(region_poly).area / crater_poly.area
             else:
                 return 1.0
 
@@ -1470,12 +1474,11 @@ class Counting(ComponentBase):
                     region_circle = self.Crater.maker(
                         radius=self.surface.local_radius, location=self.surface.local_location
                     )  # We can get away with using just the base class for Crater here
-                    region_poly = (
-                        region_circle.to_geoseries(surface=self.surface, split_antimeridian=False, use_measured_properties=False)
-                        .to_crs(self.surface.crs)
-                        .item()
+                    region_outline = region_circle.to_geoseries(
+                        surface=self.surface, split_antimeridian=False, use_measured_properties=False
                     )
-                    boundary_points = list(region_poly.exterior.coords)
+                    boundary_points = list(region_outline.to_crs(self.surface.crs).item().exterior.coords)
+                    region_poly = region_outline.to_crs(self.surface.local.crs).item()
                     area = self.surface.local.area
             else:
                 f.write(f"coordinate_system_name = {self.surface.crs.name}\n")
-- 
2.43.0


From 2b0b59d971f5f0e718b2e7907894f00546e2318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 80/82] fix: close the outline of a crater exactly

---
 cratermaker/components/crater/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cratermaker/components/crater/__init__.py b/cratermaker/components/crater/__init__.py
index a79aa9c..b573f27 100644
--- a/cratermaker/components/crater/__init__.py
+++ b/cratermaker/components/crater/__init__.py
@@ -1220,6 +1220,8 @@ class Crater(ComponentBase):
 
         # Forward geodesic for each bearing/distance
         poly_lon, poly_lat, _ = geod.fwd(lon * np.ones_like(bearings), lat * np.ones_like(bearings), bearings, r)
+        # The first and last points are the same, but may differ by rounding
+        poly_lon[-1], poly_lat[-1] = poly_lon[0], poly_lat[0]
 
         # Correct for potential antimeridian crossing
         if split_antimeridian and np.ptp(poly_lon) > 180.0:
-- 
2.43.0


From 61a78ac7b34c5e96b2794dc6c7afa87e62f40e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 81/82] fix: rasterize and export the whole surface as GeoTIFF

---
 cratermaker/components/surface/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index 5ef48f5..a22295b 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -788,7 +788,7 @@ class Surface(ComponentBase):
         **kwargs : Any
             |kwargs|
         """
-        return self._full().to_geotiff(
+        return self._full().to_geotiff_file(
             interval=interval,
             variable_name=variable_name,
             **kwargs,
@@ -3070,15 +3070,15 @@ class LocalSurface(CratermakerBase):
         return
 
     def to_raster(
-        self, uxda: UxDataArray | None = None, **kwargs: Any
+        self, uxda: UxDataArray | str | None = None, **kwargs: Any
     ) -> tuple[NDArray[np.float32], tuple[float, float, float, float], Any, CRS]:
         """
         Rasterize a face-based variable into a 2D raster using rasterio.
 
         Parameters
         ----------
-        uxda : UxDataArray | None
-            The UxDataArray containing the face-based variable to rasterize. If None, the method will use currently loaded data in the surface with "face_elevation" as the default variable. Default is None.
+        uxda : UxDataArray | str | None
+            The UxDataArray containing the face-based variable to rasterize, or the name of a variable of the currently loaded data. If None, the method will use currently loaded data in the surface with "face_elevation" as the default variable. Default is None.
         **kwargs : Any
             |kwargs|
 
@@ -3105,7 +3105,9 @@ class LocalSurface(CratermakerBase):
             return
 
         if uxda is None:
-            uxda = self.uxds["face_elevation"].load()
+            uxda = "face_elevation"
+        if isinstance(uxda, str):
+            uxda = self.uxds[uxda].load()
 
         W, H = self.get_raster_dims()
         if self.is_global:
-- 
2.43.0


From 8413fcff1163c273df361d61bed665f553fdf210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 82/82] fix: ask before a GeoTIFF or region outline export
 overwrites a file

---
 cratermaker/components/surface/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cratermaker/components/surface/__init__.py b/cratermaker/components/surface/__init__.py
index a22295b..12aae88 100644
--- a/cratermaker/components/surface/__init__.py
+++ b/cratermaker/components/surface/__init__.py
@@ -3232,6 +3232,8 @@ class LocalSurface(CratermakerBase):
                 "nodata": np.nan,
             }
             print(f"Exporting to {output_filename}")
+            if not self._overwrite_check(output_filename):
+                return
             with rio.open(output_filename, "w", **profile) as dst:
                 dst.write(raster, 1)
             return
@@ -3808,6 +3810,8 @@ class LocalSurface(CratermakerBase):
             )
             gdf = gpd.GeoDataFrame(data=df, geometry=geoms, crs=self.crs)
             filename = self.export_dir / f"local_surface_AREA.{file_extension}"
+            if not self._overwrite_check(filename):
+                return
 
             if file_extension == "shp":
                 gdf.to_file(filename, driver=driver, **kwargs)
-- 
2.43.0

