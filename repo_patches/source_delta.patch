From c1fec103b81777ada336af8f0be95a7a27ad910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:39 +0000
Subject: [PATCH 01/55] fix: centre distance solver no longer stalls at small
 working pressure angles

tan(a)-a has zero slope at the previous start point a=0, so for pairs with a
small working pressure angle (e.g. 8 teeth with shift -0.4 and 12 teeth) the
root search stopped early and the gears were placed at a wrong distance.
---
 src/gggears/gearmath.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..6395c36 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -78,12 +78,9 @@ def calc_involute_mesh_distance(
         d1 = r_base_1 * np.abs(angle_base_1)
         d2 = r_base_2 * np.abs(angle_base_2)
         bl_sign = np.sign(d2 - d1)
-        sol = root(
-            lambda a: np.tan(a)
-            - a
-            + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
-            0,
-        )
+        inv_a = -(d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        # tan(a)-a ~ a^3/3 is flat at 0, where the solver would get stuck
+        sol = root(lambda a: np.tan(a) - a - inv_a, np.cbrt(3 * inv_a))
         Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
 
@@ -95,10 +92,9 @@ def calc_involute_mesh_distance(
         # )
         d1 = r_base_1 * ((angle_base_1))
         d2 = r_base_2 * (pitch_angle_2 / 2 - (angle_base_2))
-        sol = root(
-            lambda a: a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2),
-            0.0,
-        )
+        inv_a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        # tan(a)-a ~ a^3/3 is flat at 0, where the solver would get stuck
+        sol = root(lambda a: np.tan(a) - a - inv_a, np.cbrt(3 * inv_a))
         Dist = (r_base_1 + r_base_2) / np.cos(sol.x[0])
 
     return Dist
-- 
2.43.0


From 32cb044943d666bee2bddb9c63235ec669a3622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:39 +0000
Subject: [PATCH 02/55] fix: backlash_from_ax_distance is the inverse of
 calc_involute_mesh_distance

It used the opposite sign convention for the base angles, returned half of the
backlash and had the wrong sign in the ring gear branch.
---
 src/gggears/gearmath.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 6395c36..54d1072 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -136,19 +136,21 @@ def backlash_from_ax_distance(
         Backlash between the two gears.
     """
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
-        a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        d1 = r_base_1 * np.abs(angle_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        a = np.arccos(np.abs((r_base_2 - r_base_1) / Distance))
+        # np.tan(a) - a = (d2 - d1 - backlash / 2 * sign(d2-d1)) / (r_base_2 - r_base_1)
+        backlash = (
+            2
+            * np.sign(d2 - d1)
+            * (d2 - d1 - (np.tan(a) - a) * (r_base_2 - r_base_1))
+        )
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d1 = r_base_1 * angle_base_1
+        d2 = r_base_2 * (pitch_angle_2 / 2 - angle_base_2)
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        # np.tan(a) - a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From 733c38b5798e1325af04796d06caf604a88c33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:54 +0000
Subject: [PATCH 03/55] fix: helical gear meshed to a ring of the same helix
 keeps parallel axes

The axis was tilted by the sum of the helix angles even for ring gears, where
the matching gear has the same helix angle.
---
 src/gggears/gggears_wrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..c2eab59 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1168,7 +1168,11 @@ class HelicalGear(InvoluteGear):
         super().mesh_to(other, target_dir)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        angle_axis = self.beta + other.beta
+        if other.inside_teeth:
+            # a gear runs in a ring of the same hand with parallel axes
+            angle_axis = self.beta - other.beta
+        else:
+            angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
-- 
2.43.0


From 4754b10218c98006a3d8ced5fbab02a1248488df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:54 +0000
Subject: [PATCH 04/55] fix: centre distance of crossed helical gears with
 different helix angles

The parallel-axis involute formula was applied to gears with different
transverse modules; such gears touch on their pitch cylinders.
---
 src/gggears/gggears_wrapper.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c2eab59..52b527f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1166,6 +1166,19 @@ class HelicalGear(InvoluteGear):
     def mesh_to(self, other, target_dir=RIGHT):
         # basic meshing
         super().mesh_to(other, target_dir)
+        if not other.inside_teeth and not np.isclose(abs(self.beta), abs(other.beta)):
+            # crossed axes with different helix angles: transverse modules differ,
+            # the gears touch at a point between the (shifted) pitch cylinders
+            distance = (
+                self.pitch_radius
+                + other.pitch_radius
+                + self.inputparam.profile_shift * self.module
+                + other.inputparam.profile_shift * other.module
+            )
+            center_dir = normalize_vector(self.gearcore.center - other.gearcore.center)
+            self.gearcore.transform.center = (
+                other.gearcore.center + center_dir * distance
+            )
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         if other.inside_teeth:
-- 
2.43.0


From 4fb2d014be85029b356fba662ebb5ad48f07af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:34 +0000
Subject: [PATCH 05/55] fix: core bevel mesh_to uses the pose and module of
 both gears

---
 src/gggears/gggears_core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..632a1f9 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1029,10 +1029,20 @@ class Gear:
 
     def mesh_to(self, other: "Gear", target_dir=RIGHT):
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
+            # reference cones as placed in space: calc_bevel_gear_placement_vector
+            # needs the pose and module of the gears
+            cone_self, cone_other = (
+                ConicData(
+                    cone_angle=gear.cone.cone_angle,
+                    base_radius=gear.tooth_param.num_teeth / 2,
+                    transform=gear.transform,
+                )
+                for gear in (self, other)
+            )
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                cone_self,
+                cone_other,
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-- 
2.43.0


From 705525e54413a9b61908524baf8a4649f8b57650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 06/55] fix: Transform.invert is the inverse when the scale is
 not 1

---
 src/gggears/gggears_base_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..e92ec4b 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -96,7 +96,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -146,7 +146,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
-- 
2.43.0


From cff57f9e00f70690ac18b87b3b0a14c46335e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 07/55] fix: product of gear transforms is their composition
 for any orientation

---
 src/gggears/gggears_base_classes.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index e92ec4b..a08e97c 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -186,9 +186,14 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -227,13 +232,14 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransform(
                 center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
-- 
2.43.0


From 31cc29abe320ca3d69ac6b8ce9d33941aa84f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 08/55] fix: gear transform invert is the inverse for any
 orientation

---
 src/gggears/gggears_base_classes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a08e97c..d6856ad 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -207,8 +207,8 @@ class GearTransformData(TransformData):
         inv_orient = self.orientation.transpose()
         inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -250,11 +250,11 @@ class GearTransform(GearTransformData):
 
     def invert(self):
         """Invert the transformation."""
-        inv_orient = self.orientation
-        inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        inv_orient = self.orientation.transpose()
+        inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransform(
-            center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 877de4032141d259e4f16fb2c1ef0bdf7fa9ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 09/55] fix: z_height of displaced and of herringbone gears

---
 src/gggears/gggears_wrapper.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 52b527f..421032d 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -189,11 +189,7 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
-        c0, c1 = self.gearcore.shape_recipe.transform.center(
-            z0
-        ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(self.center_point_top - self.center_point_bottom)
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
-- 
2.43.0


From e21bce4a3e0dbd8fcfc16526a1e16fdacaf17cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 10/55] fix: center_spherical is the apex of the placed pitch
 cone

---
 src/gggears/gggears_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 421032d..e7d0900 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -90,8 +90,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
-- 
2.43.0


From 20fce08472d57e1d3bb5ef178c85dffb55768be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:34 +0000
Subject: [PATCH 11/55] fix: width ratio spans the whole gear when there are
 more than two z values

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index e7d0900..20a8266 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -228,7 +228,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -470,7 +470,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = z_ratio * self.gearcore.z_vals[-1] + (1 - z_ratio) * self.gearcore.z_vals[0]
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -729,7 +729,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = z_ratio * self.gearcore.z_vals[-1] + (1 - z_ratio) * self.gearcore.z_vals[0]
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1933,7 +1933,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = z_ratio * self.gearcore.z_vals[-1] + (1 - z_ratio) * self.gearcore.z_vals[0]
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From e8bc9a14d002abb8948dbb3de76519aec5de32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:19 +0000
Subject: [PATCH 12/55] fix: crowning is centred on the tooth width for any
 module and z_anchor

---
 src/gggears/gggears_wrapper.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 20a8266..9e8722a 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -491,9 +491,15 @@ class InvoluteGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
 
         def crowning_func(z, offset=0):
+            # relative position along the tooth width, -1 bottom, 1 top
+            z_rel = (
+                2 * z * self.inputparam.module / self.inputparam.height
+                + 2 * self.inputparam.z_anchor
+                - 1
+            )
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - z_rel**2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -1700,9 +1706,15 @@ class CycloidGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
         def crowning_func(z, offset=0):
+            # relative position along the tooth width, -1 bottom, 1 top
+            z_rel = (
+                2 * z * self.inputparam.module / self.inputparam.height
+                + 2 * self.inputparam.z_anchor
+                - 1
+            )
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - z_rel**2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
-- 
2.43.0


From 497a5b41bd836df0b0373b7262b69b2c6883743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 13/55] fix: drawing the boundary wire does not turn the gear

---
 src/gggears/gggears_build123d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..f7e662d 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,9 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    else:
+        # the angle is advanced below, this should not turn the gear of the caller
+        transform = copy.deepcopy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From f372f5ff03d5872443197886a9eea023d40c122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 14/55] fix: building a bevel gear that fails leaves the gear
 as it was

---
 src/gggears/gggears_build123d.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index f7e662d..c786882 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -89,19 +89,21 @@ class GearBuilder(GearToNurbs):
         else:
             # gear construction by defining a reference solid (a blank)
             # and cutting it with the side surfaces
-            z_vals_save = copy.deepcopy(gear.z_vals)
+            # extension is done on a copy, the gear should stay as is if building fails
+            gear_extended = copy.copy(gear)
+            gear_extended.z_vals = copy.deepcopy(gear.z_vals)
             zdiff = gear.z_vals[-1] - gear.z_vals[0]
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
-            gear.z_vals[-1] += side_surface_extension_ratio * zdiff
-            gear.z_vals[0] -= side_surface_extension_ratio * zdiff
+            gear_extended.z_vals[-1] += side_surface_extension_ratio * zdiff
+            gear_extended.z_vals[0] -= side_surface_extension_ratio * zdiff
             super().__init__(
-                gear=gear,
+                gear=gear_extended,
                 n_points_hz=n_points_hz,
                 n_points_vert=n_points_vert,
                 oversampling_ratio=oversampling_ratio,
             )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            # continue with original z_vals
+            self.gear = gear
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From abf2c268a9162c8b55088ff29abb79dce1958d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:46 +0000
Subject: [PATCH 15/55] fix: adapt_cycloid_radii keeps the placement of both
 gears

---
 src/gggears/gggears_wrapper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 9e8722a..c8b0125 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1929,8 +1929,12 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
+        for gear in (self, other):
+            # only the shape is recalculated, the gears stay where they are
+            transform = gear.gearcore.transform
+            gear.calc_params()
+            gear.gearcore.transform = transform
+            gear.builder = None
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 3f6ba1bc7fa021d1ad6974a9fd7c06a4bd76a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:01 +0000
Subject: [PATCH 16/55] fix: gears and racks own their position and orientation
 arrays

---
 src/gggears/gggears_base_classes.py |  4 ++--
 src/gggears/gggears_core.py         |  4 ++--
 src/gggears/gggears_wrapper.py      | 22 +++++++++++++---------
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index d6856ad..81f25e6 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,8 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3.copy())
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 632a1f9..700c161 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -968,7 +968,7 @@ class Gear:
 
     @center.setter
     def center(self, value):
-        self.transform.center = value
+        self.transform.center = np.array(value, dtype=float)
 
     @property
     def center_sphere(self):
@@ -1072,7 +1072,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c8b0125..23f6cc7 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -83,7 +83,7 @@ class GearInfoMixin:
 
     @center.setter
     def center(self, value):
-        self.gearcore.transform.center = value
+        self.gearcore.transform.center = np.array(value, dtype=float)
 
     @property
     def center_spherical(self):
@@ -586,7 +586,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -703,7 +703,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -718,8 +720,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1773,7 +1775,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1870,7 +1872,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
@@ -2136,8 +2140,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = np.array(position, dtype=float)
+        self.orientation = np.array(orientation, dtype=float)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From 18757f7d3cd99343d19d96ecfb2c6c6dccc9dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 17/55] fix: line of action lies in the plane of rotation of
 the gears

---
 src/gggears/gggears_wrapper.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 23f6cc7..480eefa 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1998,6 +1998,12 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        axis = self.gear1.gearcore.transform.z_axis
+
+        def rotate_in_plane(v, angle):
+            # plane of rotation of the gears, can be anywhere in space
+            return scp_Rotation.from_rotvec(axis * angle).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
@@ -2010,9 +2016,10 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear2.addendum_radius**2 - rb2**2)
-            startpoint1 = center2 + rotate_vector(-diff_vector_unit, alpha) * rb2
+            startpoint1 = center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2
             endpoint1 = (
-                startpoint1 + rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1
+                + rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2026,9 +2033,10 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear1.addendum_radius**2 - rb1**2)
-            startpoint1 = center1 + rotate_vector(-diff_vector_unit, alpha) * rb1
+            startpoint1 = center1 + rotate_in_plane(-diff_vector_unit, alpha) * rb1
             endpoint1 = (
-                startpoint1 - rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1
+                - rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2042,12 +2050,12 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb1 + rb2) / distance)
             line1 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2,
             )
             line2 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, -alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, -alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, -alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, -alpha) * rb2,
             )
             return line1, line2
 
-- 
2.43.0


From 6301f6added3dd482299d097876e8740ad659517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:27 +0000
Subject: [PATCH 18/55] fix: cone_angle_from_teeth gives matching cones for any
 axis angle

---
 src/gggears/gearmath.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 54d1072..52783bf 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -26,11 +26,10 @@ def cone_angle_from_teeth(
     np.ndarray
         Array containing the cone angles (in radians) for gear 1 and gear 2.
     """
-    cosfi = np.cos(axis_angle)
     a = float(num_teeth_1)
     b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
+    # both cones have the same length: sin(gamma1) / sin(gamma2) = a / b
+    gamma2 = np.arctan2(b * np.sin(axis_angle), a - b * np.cos(axis_angle))
     gamma1 = np.pi - axis_angle - gamma2
     return np.array((gamma1 * 2, gamma2 * 2))
 
-- 
2.43.0


From 0bc2de132456bb72c32bded5ee99940f7dc1cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:00 +0000
Subject: [PATCH 19/55] fix: tip truncation ignores crossings on the far side
 of the gear

---
 src/gggears/gggears_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 700c161..5fcc91d 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -211,8 +211,10 @@ def apply_tip_reduction(
     r_out = rah
     for guess in np.linspace(0.1, 0.9, 4):
         sol1 = crv.find_curve_plane_intersect(tooth_curve, plane_normal=UP, guess=guess)
-        r_sol = polar_transformer.polar_transform(tooth_curve(sol1.x[0]))[0]
-        if sol1.success and r_sol > rdh:
+        p_sol = tooth_curve(sol1.x[0])
+        r_sol = polar_transformer.polar_transform(p_sol)[0]
+        # the extended curve may also cross the plane on the far side of the gear
+        if sol1.success and r_sol > rdh and p_sol[0] > 0:
             soldata.append((sol1, r_sol))
 
     if len(soldata) > 0:
-- 
2.43.0


From fe8729164e3382a9ec19f483357bbcd87635471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 20/55] fix: undercut of bevel teeth whose flank reaches the
 root cone

---
 src/gggears/gearteeth.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..1a91c89 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -548,13 +548,15 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
-        # undercut intersecting the involute-extension line is unlikely,
-        # try again with a different guess
-        sol = crv.find_curve_intersect(
-            tooth_curve, undercut_curve, guess=sol.x[:2] + np.array([0.2, 0.2])
-        )
+    # there is no involute-extension line when the flank itself reaches the root
+    if isinstance(tooth_curve, crv.CurveChain):
+        ps = tooth_curve.get_length_portions()
+        if sol.x[0] < ps[1]:
+            # undercut intersecting the involute-extension line is unlikely,
+            # try again with a different guess
+            sol = crv.find_curve_intersect(
+                tooth_curve, undercut_curve, guess=sol.x[:2] + np.array([0.2, 0.2])
+            )
 
     tooth_curve.set_start_on(sol.x[0])
     undercut_curve.set_end_on(sol.x[1])
-- 
2.43.0


From 489568542981646329f2eb8f1d7702bd1e21ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 21/55] fix: length of trimmed and of clockwise arcs

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..76fec78 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1136,7 +1136,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = abs(self.radius * self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
-- 
2.43.0


From 1a58d0ce9418a4f7076f6bb41a231370a3c8c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:18 +0000
Subject: [PATCH 22/55] fix: bevel flank is limited by the root cone, not by a
 tilted plane

---
 src/gggears/gggears_base_classes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 81f25e6..b1804af 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -588,18 +588,19 @@ class GearToothConicGenerator(GearToothGenerator):
             gamma = self.conic_data.gamma
             R = self.conic_data.R
             h_d_angle = PI / 2 - gamma + self.ref_limits.h_d / R
-            z_center = R * np.cos(gamma)
+            # the root cone cuts the sphere of the teeth in the plane of this circle
+            root_circle_center = OUT * R * (np.cos(gamma) - np.sin(h_d_angle))
             h_d_point = crv.find_curve_plane_intersect(
                 tooth_curve,
-                plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                offset=z_center * OUT,
+                plane_normal=OUT,
+                offset=root_circle_center,
                 guess=0,
             )
             if not h_d_point.success:
                 h_d_point = crv.find_curve_plane_intersect(
                     tooth_curve,
-                    plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                    offset=z_center * OUT,
+                    plane_normal=OUT,
+                    offset=root_circle_center,
                     method=crv.IntersectMethod.MINDISTANCE,
                     guess=0,
                 )
-- 
2.43.0


From 99ff41ed5b65a245060ce3918967bec09878f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:58 +0000
Subject: [PATCH 23/55] fix: bevel flank without undercut reaches the requested
 dedendum

---
 src/gggears/gggears_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 480eefa..c75b205 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -557,6 +557,7 @@ class InvoluteGear(GearInfoMixin):
                     pressure_angle=self.inputparam.pressure_angle,
                     pitch_radius=rp_ref,
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
+                    ref_limits=limits,
                     cone_angle=self.inputparam.cone_angle,
                 )
         z_h = self.inputparam.height / self.inputparam.module
-- 
2.43.0


From 6328978e87ca20966ef759dce27843354d51d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:13 +0000
Subject: [PATCH 24/55] fix: undercut trimming keeps an intersection on which
 the solver stalls

---
 src/gggears/gearteeth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 1a91c89..3083b68 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -541,7 +541,8 @@ def trim_involute_undercut(
 
     sol = crv.find_curve_intersect(tooth_curve, undercut_curve, guess=guess)
 
-    if not sol.success:
+    # the solver may stall exactly on the intersection
+    if not sol.success and np.linalg.norm(sol.fun) > 1e-9:
         sol = crv.find_curve_intersect(
             tooth_curve,
             undercut_curve,
-- 
2.43.0


From 7a45ad1b4c080bc9ccdf657d6986809f41353121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:58 +0000
Subject: [PATCH 25/55] fix: bevel flank that turns back above the root is not
 followed past its turning point

---
 src/gggears/gggears_base_classes.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index b1804af..1dc6c56 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -596,15 +596,26 @@ class GearToothConicGenerator(GearToothGenerator):
                 offset=root_circle_center,
                 guess=0,
             )
-            if not h_d_point.success:
-                h_d_point = crv.find_curve_plane_intersect(
-                    tooth_curve,
-                    plane_normal=OUT,
-                    offset=root_circle_center,
-                    method=crv.IntersectMethod.MINDISTANCE,
-                    guess=0,
-                )
-                tooth_curve.set_start_on(h_d_point.x[0])
+            s_root = h_d_point.x[0]
+            s_turn = None
+            if h_d_point.success and s_root < 0:
+                # a flank that turns back before the root does not reach it
+                s_flank = np.linspace(0, s_root, 51)
+                z_flank = [np.sign(R) * tooth_curve(s)[2] for s in s_flank]
+                turns = np.nonzero(np.diff(z_flank) > 0)[0]
+                if len(turns) > 0:
+                    s_turn = s_flank[turns[0]]
+            if not h_d_point.success or s_turn is not None:
+                if s_turn is None:
+                    h_d_point = crv.find_curve_plane_intersect(
+                        tooth_curve,
+                        plane_normal=OUT,
+                        offset=root_circle_center,
+                        method=crv.IntersectMethod.MINDISTANCE,
+                        guess=0,
+                    )
+                    s_turn = h_d_point.x[0]
+                tooth_curve.set_start_on(s_turn)
                 bottom_angle = np.abs(
                     angle_between_vector_and_plane(tooth_curve(0), OUT) - h_d_angle
                 )
-- 
2.43.0


From f6cc50363bd0a095b2eeda3fd30a1404a412450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:42 +0000
Subject: [PATCH 26/55] fix: rack offset is scaled with the module

---
 src/gggears/gggears_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c75b205..b3c9f09 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2241,8 +2241,11 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # scaling does not affect the location of the part: scale first, then shift
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
@@ -2444,8 +2447,11 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        # scaling does not affect the location of the part: scale first, then shift
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
-- 
2.43.0


From b8b1f924caafd2e7669d3107e9326011dd145966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:41 +0000
Subject: [PATCH 27/55] fix: meshing of cycloid and core gears does not depend
 on the length of target_dir

---
 src/gggears/gggears_core.py    | 1 +
 src/gggears/gggears_wrapper.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 5fcc91d..7de1330 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1030,6 +1030,7 @@ class Gear:
         self.shape_recipe.tooth_generator = tg
 
     def mesh_to(self, other: "Gear", target_dir=RIGHT):
+        target_dir = target_dir / np.linalg.norm(target_dir)
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             # reference cones as placed in space: calc_bevel_gear_placement_vector
             # needs the pose and module of the gears
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index b3c9f09..be61064 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1839,6 +1839,7 @@ class CycloidGear(GearInfoMixin):
             gear.
             Should be a unit vector. Default is RIGHT (x).
         """
+        target_dir = target_dir / np.linalg.norm(target_dir)
         if self.cone_angle != 0 or other.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-- 
2.43.0


From 52ec7f30000cb393ecb1ba0b9cdc1d6455df1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:02 +0000
Subject: [PATCH 28/55] fix: tip truncation ignores crossings beyond the root
 end of the flank

---
 src/gggears/gggears_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 7de1330..17cc8c9 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -213,8 +213,10 @@ def apply_tip_reduction(
         sol1 = crv.find_curve_plane_intersect(tooth_curve, plane_normal=UP, guess=guess)
         p_sol = tooth_curve(sol1.x[0])
         r_sol = polar_transformer.polar_transform(p_sol)[0]
-        # the extended curve may also cross the plane on the far side of the gear
-        if sol1.success and r_sol > rdh and p_sol[0] > 0:
+        # the extended curve may also cross the plane on the far side of the gear, or
+        # before its root end
+        on_tip_side = p_sol[0] > 0 and sol1.x[0] > 0
+        if sol1.success and r_sol > rdh and on_tip_side:
             soldata.append((sol1, r_sol))
 
     if len(soldata) > 0:
-- 
2.43.0


From 03661fccc67aec38fce65a830d9ba1e72b51cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:43 +0000
Subject: [PATCH 29/55] fix: root_fillet is ignored when undercut is enabled,
 as documented

---
 src/gggears/gggears_wrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index be61064..35b7aa6 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -572,7 +572,11 @@ class InvoluteGear(GearInfoMixin):
                 tooth_generator=tooth_generator,
                 limits=limits,
                 fillet=FilletDataRecipe(
-                    root_fillet=self.inputparam.root_fillet,
+                    root_fillet=(
+                        0
+                        if self.inputparam.enable_undercut
+                        else self.inputparam.root_fillet
+                    ),
                     tip_fillet=self.inputparam.tip_fillet,
                     tip_reduction=self.inputparam.tip_truncation,
                 ),
-- 
2.43.0


From dbd944556b175f52496f32076a8674941ed108c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:58 +0000
Subject: [PATCH 30/55] fix: crowned gears are meshed with their full tooth
 thickness

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 35b7aa6..c90995c 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -453,9 +453,9 @@ class InvoluteGear(GearInfoMixin):
     def angle_base(self):
         """
         Angle of the starting point of the involute curve of a tooth in the
-        default position.
+        default position, in the middle of the width (full thickness when crowned).
         """
-        tooth_gen = self.gearcore.shape_recipe(0).tooth_generator
+        tooth_gen = self.gearcore.shape_recipe(self.p2z(0.5)).tooth_generator
         if isinstance(tooth_gen, (InvoluteTooth, InvoluteUndercutTooth)):
             return tooth_gen.get_base_angle()
         else:
-- 
2.43.0


From fba1750a7f1d8603c9109b5b34a1772c172d4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:04 +0000
Subject: [PATCH 31/55] fix: continuous boundary curve follows height, taper
 and helix of the slice

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 17cc8c9..13edc68 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -784,7 +784,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
     def loc_func(t, curve=profile.profile):
         i = t * toothdata.num_teeth_act // 1
         t2 = t * toothdata.num_teeth_act % 1
-        return (
+        return profile.transform(
             curve(t2)
             @ scp_Rotation.from_euler("z", i * toothdata.pitch_angle).as_matrix().T
         )
-- 
2.43.0


From 7c9b63b4f237c6626954d1f2605dbd308e5dd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:04 +0000
Subject: [PATCH 32/55] fix: closed tooth profiles of rings are closed chains

---
 src/gggears/gggears_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 13edc68..33354cc 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -415,7 +415,7 @@ class GearRefProfileExtended(GearRefProfile):
             ),
             self.rd_curve,
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_connector.copy().reverse(),
         )
 
     @property
@@ -424,11 +424,11 @@ class GearRefProfileExtended(GearRefProfile):
         inside) ring."""
         return crv.CurveChain(
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_curve,
             self.tooth_curve_mirror,
-            self.ro_connector_2,
+            self.ro_connector_2.copy().reverse(),
             self.ro_curve_tooth.copy().reverse(),
-            self.ro_connector_1.copy().reverse(),
+            self.ro_connector_1,
         )
 
     @classmethod
-- 
2.43.0


From c421b4395fb5ab3c62317409107b96ff2b0dfbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 33/55] fix: reversing a curve keeps its points equally
 distributed

---
 src/gggears/curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 76fec78..025debe 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -201,6 +201,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
@@ -1544,6 +1545,10 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        # the same curve in terms of t -> 1-t
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
+        self.t2s_lookup["t"] = 1 - np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     @property
-- 
2.43.0


From 15aaafa52608b93d7e4e21e066972480382157b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 34/55] fix: t2s of reversed curves

---
 src/gggears/curve.py | 47 +++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 025debe..90bac19 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -137,40 +137,33 @@ class Curve:
 
     def t2s(self, t):
         """Convert natural parameter t to length-proportional parameter s."""
-        retval = np.interp(t, self.t2s_lookup["t"], self.t2s_lookup["s"])
+        t_lookup, s_lookup = self.t2s_lookup["t"], self.t2s_lookup["s"]
+        if t_lookup[0] > t_lookup[-1]:
+            # reversed curve, interpolation needs ascending values
+            t_lookup, s_lookup = np.flip(t_lookup), np.flip(s_lookup)
+        t_min, t_max = t_lookup[0], t_lookup[-1]
+        retval = np.interp(t, t_lookup, s_lookup)
         if np.ndim(t) > 0:
-            if any(t < self.t_0):
-                retval[t < self.t_0] = interpolate(
-                    t[t < self.t_0],
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+            if any(t < t_min):
+                retval[t < t_min] = interpolate(
+                    t[t < t_min], t_lookup[0], t_lookup[1], s_lookup[0], s_lookup[1]
                 )
-            if any(t > self.t_1):
-                retval[t > self.t_1] = interpolate(
-                    t[t > self.t_1],
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+            if any(t > t_max):
+                retval[t > t_max] = interpolate(
+                    t[t > t_max],
+                    t_lookup[-1],
+                    t_lookup[-2],
+                    s_lookup[-1],
+                    s_lookup[-2],
                 )
         else:
-            if t < self.t_0:
+            if t < t_min:
                 retval = interpolate(
-                    t,
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+                    t, t_lookup[0], t_lookup[1], s_lookup[0], s_lookup[1]
                 )
-            elif t > self.t_1:
+            elif t > t_max:
                 retval = interpolate(
-                    t,
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+                    t, t_lookup[-1], t_lookup[-2], s_lookup[-1], s_lookup[-2]
                 )
         return retval
 
-- 
2.43.0


From 4f9ef3b86076f4f056652d649edc4b008a146d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 35/55] fix: copies and cuts of curves do not depend on the
 original

---
 src/gggears/curve.py | 88 ++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 90bac19..0c5c987 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1328,9 +1328,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1338,6 +1336,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1364,14 +1367,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1379,6 +1375,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1420,21 +1426,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1470,7 +1479,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1478,6 +1487,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.apply_transform(self.target_curve(t))
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1489,19 +1501,19 @@ class MirroredCurve(TransformedCurve):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
+        super().__init__(self.mirror_func, curve)
 
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1512,13 +1524,11 @@ class RotatedCurve(TransformedCurve):
         self.angle = angle
         self.center = center
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
+        super().__init__(self.rotate_func, curve)
 
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From a9c09bbb8f7bfc32adf1423aae00acaf98415350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 36/55] fix: reversing, deleting from and trimming curve chains

---
 src/gggears/curve.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 0c5c987..9d20d85 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -498,7 +498,7 @@ class CurveChain(Curve):
         self.curves[index] = value
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
 
     def __iter__(self):
         return iter(self.curves)
@@ -537,6 +537,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
@@ -552,23 +553,19 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        # both locations refer to the chain as it was before trimming
+        idx0, s2_0 = self.get_s_index(s0)
+        idx1, s2_1 = self.get_s_index(s1)
+        if idx0 == idx1:
+            self.curves[idx0].set_start_and_end_on(s2_0, s2_1)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
-
-        idx, s2 = self.get_s_index(s1)
+            self.curves[idx0].set_start_on(s2_0)
+            self.curves[idx1].set_end_on(s2_1)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx0] + self.curves[idx1 + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx0 : idx1 + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
-- 
2.43.0


From 025dfa37525c0317a88df19c87b54d7e80f2cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 37/55] fix: division of curves

---
 src/gggears/curve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 9d20d85..873ecae 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -317,11 +317,11 @@ class Curve:
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
             return Curve(
-                lambda t: self(t) / other,
+                lambda t, curve, val: curve(t) / val,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
-                params={},
+                t0=0,
+                t1=1,
+                params={"curve": self, "val": other},
                 enable_vectorize=self.enable_vectorize,
             )
         else:
-- 
2.43.0


From a6b430ff2b68419a84d3f62b2730519fda8b3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 38/55] fix: higher derivatives of curves

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 873ecae..b57dd07 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -228,7 +228,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda u: self.derivative(u, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From bb560869037bcd2fa0fc5243297b6f595cbbe72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 39/55] fix: transforming trimmed and reversed lines and arcs

---
 src/gggears/curve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index b57dd07..2809016 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1092,8 +1092,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
@@ -1305,7 +1305,11 @@ class ArcCurve(Curve):
         center2 = transform(self.center + self.axis)
         axis2 = normalize_vector(center2 - center0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0,
+            center0,
+            self.angle * (self.t_1 - self.t_0),
+            axis2,
+            active=self.active,
         )
 
 
-- 
2.43.0


From 41cf7be0d8ee834d7f31f606f301a02e8c485883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 40/55] fix: arcs can be evaluated on arrays

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 2809016..5e1028e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1117,7 +1117,7 @@ class ArcCurve(Curve):
         self._pitch = pitch
         self._roll = roll
         self._rotmat = self.gen_rotmat()
-        super().__init__(self.arcfunc, active=active, enable_vectorize=False)
+        super().__init__(self.arcfunc, active=active, enable_vectorize=True)
 
     def gen_rotmat(self):
         return scp_Rotation.from_euler(
-- 
2.43.0


From e65db7c4bb206c333ae5aca1b69025abb783a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:04 +0000
Subject: [PATCH 41/55] fix: converting a transformed curve to nurbs leaves the
 curve unchanged

---
 src/gggears/curve.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5e1028e..9bb758e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -918,7 +918,16 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             return input_curve
         elif isinstance(input_curve, TransformedCurve):
             transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
+            target = input_curve.target_curve.copy()
+            if (input_curve.t_0, input_curve.t_1) != (0, 1):
+                # only part of the target is used
+                s0, s1 = input_curve.t_0, input_curve.t_1
+                if s0 > s1:
+                    s0, s1 = s1, s0
+                target.set_start_and_end_on(s0, s1)
+                if input_curve.t_0 > input_curve.t_1:
+                    target.reverse()
+            convert = convert_curve_nurbezier(target, **kwargs)
             convert.apply_transform(transform)
             return convert
         elif isinstance(input_curve, LineCurve):
-- 
2.43.0


From 25ef4c911c0317833b9b6ec5816384893e8735c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:32 +0000
Subject: [PATCH 42/55] fix: length of transformed nurbs curves

---
 src/gggears/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 9bb758e..91751bd 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1573,6 +1573,8 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        if self.active:
+            self.update_lengths()
         return self
 
 
-- 
2.43.0


From d41ee6c81a2e5b4d763c70a1a733102010fc7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:04 +0000
Subject: [PATCH 43/55] fix: corner fillets start the search on the two sides
 of the corner

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 91751bd..ba80e27 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -650,7 +650,7 @@ class CurveChain(Curve):
         Suitable points for tangent arc are searched with starting points at the specified single location.
         """
         return self.fillet_at_locations(
-            radius, [location + radius / self.length, location - radius / self.length]
+            radius, [location - radius / self.length, location + radius / self.length]
         )
 
     def fillet_at_index(self, radius, index):
-- 
2.43.0


From 81363746ca55d06a0c37269f9da9545b4ae5518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:50 +0000
Subject: [PATCH 44/55] fix: trimmed lines and arcs are exported as trimmed

---
 src/gggears/gggears_build123d.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index c786882..f2a8757 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -555,7 +555,9 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
     if (arc.t_0, arc.t_1) != (0, 1):
         # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
+        arc2 = crv.ArcCurve.from_point_center_angle(
+            arc.p0, arc.center, arc.angle * (arc.t_1 - arc.t_0), arc.axis
+        )
     else:
         arc2 = arc
 
@@ -583,7 +585,7 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
@@ -596,8 +598,7 @@ def curve_to_edges(curve: crv.Curve):
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
     elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
+        nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
     else:
         nurb = crv.convert_curve_nurbezier(curve)
-- 
2.43.0


From 0d68b37a5314c6216e7b07c1d3b141bafb15c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 45/55] fix: trimmed nurbs curves and inactive curves in
 exported edges

---
 src/gggears/gggears_build123d.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index f2a8757..796b863 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -496,14 +496,30 @@ def gen_splines(curve_bezier: Curve):
         splines = []
         for curve in curve_bezier.get_curves():
             if curve.active:
-                vectors = nppoint2Vector(curve.points)
-                weights = curve.weights.tolist()
-                splines.append(bd.Edge.make_bezier(*vectors, weights=weights))
+                splines.append(nurb_to_b123d(curve))
         return splines
     else:
-        vectors = nppoint2Vector(curve_bezier.points)
-        weights = curve_bezier.weights.tolist()
-        return bd.Edge.make_bezier(*vectors, weights=weights)
+        return nurb_to_b123d(curve_bezier)
+
+
+def nurb_to_b123d(curve: crv.NurbCurve) -> bd.Edge:
+    """Converts a gggears NurbCurve to a build123d Edge object."""
+    points = curve.points
+    weights = curve.weights
+    if (curve.t_0, curve.t_1) != (0, 1):
+        # control points of the part between t_0 and t_1 (blossoming)
+        degree = weights.size - 1
+        homogeneous = np.column_stack([points * weights[:, None], weights])
+        segment = []
+        for k in range(degree + 1):
+            h = homogeneous
+            for t in [curve.t_0] * (degree - k) + [curve.t_1] * k:
+                h = (1 - t) * h[:-1] + t * h[1:]
+            segment.append(h[0])
+        segment = np.array(segment)
+        weights = segment[:, 3]
+        points = segment[:, :3] / weights[:, None]
+    return bd.Edge.make_bezier(*nppoint2Vector(points), weights=weights.tolist())
 
 
 def transform2Location(transform: GearTransform):
@@ -590,7 +606,9 @@ def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
 
 def curve_to_edges(curve: crv.Curve):
     if isinstance(curve, crv.CurveChain):
-        return [curve_to_edges(curve) for curve in curve.get_curves()]
+        return [
+            curve_to_edges(curve) for curve in curve.get_curves() if curve.active
+        ]
     elif isinstance(curve, crv.NURBSCurve) | isinstance(curve, crv.NurbCurve):
         return gen_splines(curve)
     elif isinstance(curve, crv.ArcCurve):
-- 
2.43.0


From af548017e9051894cea68c7a8f6c480a84086c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 46/55] fix: z_offs of spherical involutes without curvature

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..1c4bcc3 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
-- 
2.43.0


From 17f70a63407f6ef9fc6dcc68f7d286097a2c9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 47/55] fix: conical cycloids without curvature

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 1c4bcc3..63b0d69 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
-- 
2.43.0


From 91d1e5b18b713b01c52954dc47c452ebf8284941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 48/55] fix: z_offs of octoids

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 63b0d69..fd1dc30 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -676,4 +676,4 @@ def octoid(
     rot = scp_Rotation.from_euler("yz", angles=[PI, PI / 2 + angle])
     zshift = np.sqrt(sphere_rad**2 - base_rad**2)
     v = rot.apply(v)
-    return v + zshift * OUT
+    return v + (zshift + z_offs) * OUT
-- 
2.43.0


From 36670a381578a313dd998767bcfcdf3f4a5ac9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 49/55] fix: bezier derivatives above the degree are zero

---
 src/gggears/function_generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index fd1dc30..2e29737 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -382,8 +382,8 @@ def nurbezier(t, points, weights):
 def bezier_diff_t(t, points, n=1):
     d = points.shape[0]
     diffpoints = points
-    if n > d:
-        return np.zeros(t.shape + points.shape)
+    if n >= d:
+        return np.zeros(np.shape(t) + points.shape[1:])
     for k in range(n):
         diffpoints = (d - k - 1) * (diffpoints[1:] - diffpoints[:-1])
     # diffpoints = points[1:] - points[:-1]
-- 
2.43.0


From fd3f6faa20147a0e8ec56f577b85f484e65bd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 50/55] fix: quadratic bezier interpolation passes through its
 middle point

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 2e29737..a5dcf9b 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -542,7 +542,7 @@ def calc_nurbezier_arc(p0, p2, center):
 
 
 def calc_quadratic_bezier_interp(p0, p1, p2):
-    return np.array([p0, (4 * p1 - p0 - p2), p2])
+    return np.array([p0, (4 * p1 - p0 - p2) / 2, p2])
 
 
 def xyz_to_spherical(v, center=ORIGIN):
-- 
2.43.0


From eb5920bb7f26503dc437481eba3b77f976ea08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:41 +0000
Subject: [PATCH 51/55] fix: arcs of negative curvature end at their end point

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index a5dcf9b..f98ac65 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -285,7 +285,7 @@ def arc_from_2_point(t, p0=RIGHT, p1=UP, curvature=1.0, axis=OUT, revolutions=0.
         )
         d_angle += revolutions * PI * 2
 
-        angles = t * axis * d_angle
+        angles = t * axis * d_angle * np.sign(r)
         rot1 = scp_Rotation.from_rotvec(angles)
         return center + rot1.apply((p0 - center)).reshape(VSHAPE)
 
-- 
2.43.0


From 9b05d7f0885d907ac98f0868df688408963442ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:41 +0000
Subject: [PATCH 52/55] fix: 2D spline fits with more than 4 points

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index ba80e27..03bdfb7 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -877,7 +877,7 @@ def fit_nurb_optim(
             initpoints = fit_bezier_hermite_cubic(target_curve)
         else:
             hermite_points = fit_bezier_hermite_cubic(target_curve)
-            initpoints = np.zeros((n_points, N_Dim))
+            initpoints = np.zeros((n_points, 3))
             initpoints[0] = hermite_points[0]
             initpoints[-1] = hermite_points[-1]
             initpoints[1] = hermite_points[1]
-- 
2.43.0


From 6cc513ffd94e35f4c003b4e6310da0b539be53f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 53/55] fix: core gears accept lists of z values

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 33354cc..b058d2c 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -913,7 +913,7 @@ class Gear:
         cone: ConicData = None,
     ):
         self.module = module
-        self.z_vals = z_vals.astype(float)
+        self.z_vals = np.array(z_vals, dtype=float)
         if tooth_generator is None:
             # it is updated in the default recipe
             self.tooth_generator = GearToothConicGenerator()
-- 
2.43.0


From c5bbfedcc9e1e1ae9fa3ecc5c882c10861c20852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:07 +0000
Subject: [PATCH 54/55] fix: default limits of undercut teeth

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 3083b68..d630f9f 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -141,7 +141,8 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.CurveChain:
@@ -281,7 +282,8 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.Curve:
-- 
2.43.0


From f2241ea85dec63a9d36ff5c59e91fdb3419afb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 55/55] fix: the recipe of a copied gear no longer reads the
 parameters of the original

---
 src/gggears/gggears_wrapper.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c90995c..8770aba 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -490,17 +490,20 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # the recipe keeps its own values, copies of the gear share its functions
+        inputparam = copy.copy(self.inputparam)
+
         def crowning_func(z, offset=0):
             # relative position along the tooth width, -1 bottom, 1 top
             z_rel = (
-                2 * z * self.inputparam.module / self.inputparam.height
-                + 2 * self.inputparam.z_anchor
+                2 * z * inputparam.module / inputparam.height
+                + 2 * inputparam.z_anchor
                 - 1
             )
             return (
                 offset
                 - z_rel**2
-                * self.inputparam.crowning
+                * inputparam.crowning
                 / rp_ref
                 * 1e-3
             )
@@ -585,7 +588,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / self.number_of_teeth),
+                    scale=lambda z: (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
@@ -1712,17 +1715,20 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # the recipe keeps its own values, copies of the gear share its functions
+        inputparam = copy.copy(self.inputparam)
+
         def crowning_func(z, offset=0):
             # relative position along the tooth width, -1 bottom, 1 top
             z_rel = (
-                2 * z * self.inputparam.module / self.inputparam.height
-                + 2 * self.inputparam.z_anchor
+                2 * z * inputparam.module / inputparam.height
+                + 2 * inputparam.z_anchor
                 - 1
             )
             return (
                 offset
                 - z_rel**2
-                * self.inputparam.crowning
+                * inputparam.crowning
                 / rp_ref
                 * 1e-3
             )
@@ -1773,8 +1779,7 @@ class CycloidGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: 1
-                    * (1 - z * 2 * np.sin(gamma) / self.inputparam.number_of_teeth),
+                    scale=lambda z: 1 * (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
-- 
2.43.0

