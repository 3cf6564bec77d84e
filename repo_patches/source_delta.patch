From 289e89b6e9ce3a4e106942829a7caf0fcc741896 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 01/69] fix: building a boundary wire no longer rotates the
 gear

---
 src/gggears/gggears_build123d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..d35a6af 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,9 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    else:
+        # the angle is stepped below, the caller's transform must not follow it
+        transform = copy.copy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From 5a53b1d00a179067987b0295fa432d5465009943 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 02/69] fix: inverse of a scaled Transform uses the inverse
 scale for its center

---
 src/gggears/gggears_base_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..e92ec4b 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -96,7 +96,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -146,7 +146,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
-- 
2.43.0


From 10da2f463bbbc7fdd70f3c0938b070b767b86537 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 03/69] fix: product of gear transforms rotates the second
 orientation by the first angle

---
 src/gggears/gggears_base_classes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index e92ec4b..92000f3 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -186,9 +186,11 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation @ rot_z @ other.orientation @ rot_z.T,
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -227,13 +229,11 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransform(
                 center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                + self.orientation @ rot_z @ other.center * self.scale,
+                orientation=self.orientation @ rot_z @ other.orientation @ rot_z.T,
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
-- 
2.43.0


From faf47e07a7d45e989f5f356d06c0c7f4ef46f3cf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:53 +0000
Subject: [PATCH 04/69] fix: inverse of a gear transform undoes orientation and
 angle in the right order

---
 src/gggears/gggears_base_classes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 92000f3..8ac007d 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -204,8 +204,8 @@ class GearTransformData(TransformData):
         inv_orient = self.orientation.transpose()
         inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -244,11 +244,11 @@ class GearTransform(GearTransformData):
 
     def invert(self):
         """Invert the transformation."""
-        inv_orient = self.orientation
-        inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        inv_orient = self.orientation.transpose()
+        inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransform(
-            center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 83496375338e7210515c804ed3c87fd0ae8e48b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 05/69] fix: length of an arc follows its trimming and is never
 negative

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..b30c9fb 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1136,7 +1136,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = np.abs(self.radius * self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
-- 
2.43.0


From 5600938d86c2cedc4356d40d744862e9b69845a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 06/69] fix: CurveChain.reverse returns the chain like
 Curve.reverse

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index b30c9fb..5087835 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -543,6 +543,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
-- 
2.43.0


From e5ed507a7e2ec42bdd0a6d3d050c80c14ce92174 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 07/69] fix: Curve.t2s handles reversed curves

---
 src/gggears/curve.py | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5087835..9389938 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -137,40 +137,44 @@ class Curve:
 
     def t2s(self, t):
         """Convert natural parameter t to length-proportional parameter s."""
-        retval = np.interp(t, self.t2s_lookup["t"], self.t2s_lookup["s"])
+        t_lookup, s_lookup = self.t2s_lookup["t"], self.t2s_lookup["s"]
+        if t_lookup[-1] < t_lookup[0]:
+            # reversed curve, interpolation needs increasing t values
+            t_lookup, s_lookup = np.flip(t_lookup), np.flip(s_lookup)
+        retval = np.interp(t, t_lookup, s_lookup)
         if np.ndim(t) > 0:
-            if any(t < self.t_0):
-                retval[t < self.t_0] = interpolate(
-                    t[t < self.t_0],
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+            if any(t < t_lookup[0]):
+                retval[t < t_lookup[0]] = interpolate(
+                    t[t < t_lookup[0]],
+                    t_lookup[0],
+                    t_lookup[1],
+                    s_lookup[0],
+                    s_lookup[1],
                 )
-            if any(t > self.t_1):
-                retval[t > self.t_1] = interpolate(
-                    t[t > self.t_1],
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+            if any(t > t_lookup[-1]):
+                retval[t > t_lookup[-1]] = interpolate(
+                    t[t > t_lookup[-1]],
+                    t_lookup[-1],
+                    t_lookup[-2],
+                    s_lookup[-1],
+                    s_lookup[-2],
                 )
         else:
-            if t < self.t_0:
+            if t < t_lookup[0]:
                 retval = interpolate(
                     t,
-                    self.t2s_lookup["t"][0],
-                    self.t2s_lookup["t"][1],
-                    self.t2s_lookup["s"][0],
-                    self.t2s_lookup["s"][1],
+                    t_lookup[0],
+                    t_lookup[1],
+                    s_lookup[0],
+                    s_lookup[1],
                 )
-            elif t > self.t_1:
+            elif t > t_lookup[-1]:
                 retval = interpolate(
                     t,
-                    self.t2s_lookup["t"][-1],
-                    self.t2s_lookup["t"][-2],
-                    self.t2s_lookup["s"][-1],
-                    self.t2s_lookup["s"][-2],
+                    t_lookup[-1],
+                    t_lookup[-2],
+                    s_lookup[-1],
+                    s_lookup[-2],
                 )
         return retval
 
-- 
2.43.0


From 99220f6835bdbd21e458fa11772c43393293ea77 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 08/69] fix: reversing a curve keeps its length-proportional
 parametrization

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 9389938..617595e 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -205,6 +205,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
-- 
2.43.0


From c4ddf10235c1f6ba861cfc7a42a36efc7b67c126 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 09/69] fix: dividing a curve by a scalar keeps its extent

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 617595e..f79ec02 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -330,8 +330,8 @@ class Curve:
             return Curve(
                 lambda t: self(t) / other,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
+                t0=0,
+                t1=1,
                 params={},
                 enable_vectorize=self.enable_vectorize,
             )
-- 
2.43.0


From 01f344cd758e083d89329a54fff67caa83ae8891 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 10/69] fix: deleting from a CurveChain removes the curve

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index f79ec02..1ae5e5c 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -509,7 +509,7 @@ class CurveChain(Curve):
         self.curves[index] = value
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
 
     def __iter__(self):
         return iter(self.curves)
-- 
2.43.0


From fcd45ff1b3c335abe49728b4fc097cbfede90d3f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 11/69] fix: higher order Curve.derivative differentiates the
 lower order derivative

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 1ae5e5c..0269510 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -239,7 +239,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda u: self.derivative(u, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From 8b4c803508c79756ebe1e38065d91a461c7d0b24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 12/69] fix: CurveChain.set_start_and_end_on takes both ends on
 the original chain

---
 src/gggears/curve.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 0269510..2a2baba 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -567,23 +567,20 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        # both locations refer to the chain as it is before the trimming
+        idx0, s2_0 = self.get_s_index(s0)
+        idx1, s2_1 = self.get_s_index(s1)
+        if idx0 == idx1:
+            self.curves[idx0].set_start_and_end_on(s2_0, s2_1)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
+            self.curves[idx0].set_start_on(s2_0)
+            self.curves[idx1].set_end_on(s2_1)
 
-        idx, s2 = self.get_s_index(s1)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx0] + self.curves[idx1 + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx0 : idx1 + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
-- 
2.43.0


From f60ae3dc54399d0ae3e2e8e1fe8138e44c84581c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 13/69] fix: copies of involute, octoid and transformed curves
 are independent of the original

---
 src/gggears/curve.py | 90 ++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 2a2baba..c583e9f 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1340,9 +1340,7 @@ class InvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1350,6 +1348,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1376,14 +1379,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1391,6 +1387,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1432,21 +1438,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1482,7 +1491,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1490,6 +1499,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.apply_transform(self.target_curve(t))
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1500,20 +1512,19 @@ class MirroredCurve(TransformedCurve):
     def __init__(self, curve: Curve, plane_normal=RIGHT, center=ORIGIN):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
+        super().__init__(self.mirror_func, curve)
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
-
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1523,14 +1534,11 @@ class RotatedCurve(TransformedCurve):
         self.axis = normalize_vector(axis)
         self.angle = angle
         self.center = center
+        super().__init__(self.rotate_func, curve)
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
-
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From 100a623aba9068ae261efabfe534a94dd92793a9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 14/69] fix: NurbCurve keeps its trimming and length when
 reversed or transformed

---
 src/gggears/curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index c583e9f..602ead7 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1558,6 +1558,9 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
+        if self.active:
+            self.update_lengths()
         return self
 
     @property
@@ -1566,6 +1569,8 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        if self.active:
+            self.update_lengths()
         return self
 
 
-- 
2.43.0


From df23d1e77355b09a79cb92d1115bcff1171c169b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 15/69] fix: NURBS conversion leaves its input alone and keeps
 reversal and trimming of transformed curves

---
 src/gggears/curve.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 602ead7..2bc0a92 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -927,11 +927,17 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
 
     else:
         if isinstance(input_curve, NurbCurve):
-            return input_curve
+            return input_curve.copy()
         elif isinstance(input_curve, TransformedCurve):
-            transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
-            convert.apply_transform(transform)
+            target_curve = input_curve.target_curve
+            t_range = sorted((input_curve.t_0, input_curve.t_1))
+            if t_range != [0, 1]:
+                target_curve = target_curve.copy()
+                target_curve.set_start_and_end_on(*t_range)
+            convert = convert_curve_nurbezier(target_curve, **kwargs)
+            convert.apply_transform(input_curve.apply_transform)
+            if input_curve.t_0 > input_curve.t_1:
+                convert.reverse()
             return convert
         elif isinstance(input_curve, LineCurve):
             bz_points = np.array([input_curve(0), input_curve(1)])
-- 
2.43.0


From 9c4da01308481b1230f4f348dd95e5a88f0700e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 16/69] fix: transforming a trimmed or reversed line or arc
 keeps its extent

---
 src/gggears/curve.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 2bc0a92..bb6cf13 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1110,8 +1110,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
@@ -1323,7 +1323,11 @@ class ArcCurve(Curve):
         center2 = transform(self.center + self.axis)
         axis2 = normalize_vector(center2 - center0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0,
+            center0,
+            self.angle * (self.t_1 - self.t_0),
+            axis2,
+            active=self.active,
         )
 
 
-- 
2.43.0


From d4cc9ac2ab03a80added636a978c523be34f42b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 17/69] fix: build123d export of trimmed or reversed lines and
 arcs keeps their extent

---
 src/gggears/gggears_build123d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index d35a6af..692b48e 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -553,7 +553,9 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
     if (arc.t_0, arc.t_1) != (0, 1):
         # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
+        arc2 = crv.ArcCurve.from_point_center_angle(
+            arc.p0, arc.center, arc.angle * (arc.t_1 - arc.t_0), arc.axis
+        )
     else:
         arc2 = arc
 
@@ -581,7 +583,7 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
-- 
2.43.0


From 1a02e67270b10be898cf5fbc498692ef08cc9ed9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:35 +0000
Subject: [PATCH 18/69] fix: quadratic bezier interpolation passes through its
 middle point

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..a135b24 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -542,7 +542,7 @@ def calc_nurbezier_arc(p0, p2, center):
 
 
 def calc_quadratic_bezier_interp(p0, p1, p2):
-    return np.array([p0, (4 * p1 - p0 - p2), p2])
+    return np.array([p0, (4 * p1 - p0 - p2) / 2, p2])
 
 
 def xyz_to_spherical(v, center=ORIGIN):
-- 
2.43.0


From 8b0a626bd24d26c8a81da7a316e95799547aa1be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 19/69] fix: build123d export of transformed curves keeps their
 reversal and trimming

---
 src/gggears/gggears_build123d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 692b48e..fde61b3 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -596,8 +596,7 @@ def curve_to_edges(curve: crv.Curve):
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
     elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
+        nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
     else:
         nurb = crv.convert_curve_nurbezier(curve)
-- 
2.43.0


From 729997800c947521337cb306aa0d05cff846d83f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:48 +0000
Subject: [PATCH 20/69] fix: undercut tooth generators keep their default
 limits

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..e40ca42 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -141,7 +141,8 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.CurveChain:
@@ -281,7 +282,8 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.pressure_angle = pressure_angle
         if ref_limits is None:
             self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
-        self.ref_limits = ref_limits
+        else:
+            self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
     def generate_tooth_curve(self) -> crv.Curve:
-- 
2.43.0


From 2c5b07c3917279c87782bf9a68f7ba1e655cb404 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 21/69] fix: center_spherical of a moved gear applies the
 placement once

---
 src/gggears/gggears_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..cd85f51 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -90,8 +90,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
-- 
2.43.0


From d0b0c0b5a59fe1c42df630ec8ace41c2fc49f8ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 22/69] fix: z_height is independent of the placement and
 covers the whole gear

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index cd85f51..2a4437a 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -188,11 +188,11 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
+        z0, z1 = self.gearcore.z_vals[-1], self.gearcore.z_vals[0]
         c0, c1 = self.gearcore.shape_recipe.transform.center(
             z0
         ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(c0 - c1) * self.gearcore.transform.scale
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
-- 
2.43.0


From e2e32c712e0099143483a79bbe552daceb13957d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 23/69] fix: z-ratio 1 means the top of the gear for
 herringbone gears too

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 2a4437a..cfa9983 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -232,7 +232,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -474,7 +474,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.p2z(z_ratio)
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -733,7 +733,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.p2z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1920,7 +1920,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.p2z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From 9f8f080317b54a503a6a422ddf17ce94438544a8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:08 +0000
Subject: [PATCH 24/69] fix: crowning is symmetric about mid-height for every
 module and z_anchor

---
 src/gggears/gggears_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index cfa9983..f62a5ad 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -494,10 +494,13 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # height with module 1
+        z_h = self.inputparam.height / self.inputparam.module
+
         def crowning_func(z, offset=0):
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - (2 * (z / z_h + self.inputparam.z_anchor) - 1) ** 2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -557,7 +560,6 @@ class InvoluteGear(GearInfoMixin):
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
                     cone_angle=self.inputparam.cone_angle,
                 )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
@@ -1686,10 +1688,13 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # height with module 1
+        z_h = self.inputparam.height / self.inputparam.module
+
         def crowning_func(z, offset=0):
             return (
                 offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
+                - (2 * (z / z_h + self.inputparam.z_anchor) - 1) ** 2
                 * self.inputparam.crowning
                 / rp_ref
                 * 1e-3
@@ -1720,7 +1725,6 @@ class CycloidGear(GearInfoMixin):
             rc_in_coeff=self.inputparam.inside_cycloid_coefficient,
             rc_out_coeff=self.inputparam.outside_cycloid_coefficient,
         )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
-- 
2.43.0


From 430ad94ef60991759ae75bf4d0d24701e3cb1ba0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 25/69] fix: CycloidGear treats a negative number of teeth as a
 ring gear like InvoluteGear

---
 src/gggears/gggears_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index f62a5ad..8176412 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1654,6 +1654,10 @@ class CycloidGear(GearInfoMixin):
             inside_teeth=inside_teeth,
             z_anchor=z_anchor,
         )
+        if self.inputparam.number_of_teeth < 0:
+            self.inputparam.number_of_teeth = -number_of_teeth
+            self.inputparam.inside_teeth = not self.inputparam.inside_teeth
+
         self.builder: GearBuilder = None
         self.gearcore: Gear = None
         self.calc_params()
-- 
2.43.0


From 4a47485dff160179a12cbb37bbda508c882ac546 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 26/69] fix: a helical gear meshed into a ring gear of the same
 helix keeps parallel axes

---
 src/gggears/gggears_wrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 8176412..66e2017 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1169,7 +1169,11 @@ class HelicalGear(InvoluteGear):
         super().mesh_to(other, target_dir)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        angle_axis = self.beta + other.beta
+        if self.inside_teeth or other.inside_teeth:
+            # internal pairs run with the same hand of helix
+            angle_axis = self.beta - other.beta
+        else:
+            angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
-- 
2.43.0


From d10fedaecdf56503c15b98d393210b6b2f56a284 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 27/69] fix: rack reference lines have a length

---
 src/gggears/gggears_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..8ee3c92 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -172,13 +172,13 @@ def generate_reference_lines(
 ) -> RackRefLines:
     pitch_line = crv.LineCurve(p0=UP, p1=DOWN)
     addendum_line = crv.LineCurve(
-        p0=UP + RIGHT * limitparam.h_a, p1=UP + RIGHT * limitparam.h_a
+        p0=UP + RIGHT * limitparam.h_a, p1=DOWN + RIGHT * limitparam.h_a
     )
     dedendum_line = crv.LineCurve(
-        p0=UP - RIGHT * limitparam.h_d, p1=UP - RIGHT * limitparam.h_d
+        p0=UP - RIGHT * limitparam.h_d, p1=DOWN - RIGHT * limitparam.h_d
     )
     outside_line = crv.LineCurve(
-        p0=UP - RIGHT * limitparam.h_o, p1=UP - RIGHT * limitparam.h_o
+        p0=UP - RIGHT * limitparam.h_o, p1=DOWN - RIGHT * limitparam.h_o
     )
 
     return RackRefLines(
-- 
2.43.0


From 9a5a8458c17c92dc5c37dffe77f7b2950fea708f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 28/69] fix: moving rack reference lines does not modify the
 direction constants

---
 src/gggears/gggears_base_classes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 8ac007d..b6ddc2a 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -426,14 +426,14 @@ class RackRefLines:
     @center.setter
     def center(self, value):
         diff = value - self.center
-        self.a_line.p0 += diff
-        self.a_line.p1 += diff
-        self.p_line.p0 += diff
-        self.p_line.p1 += diff
-        self.d_line.p0 += diff
-        self.d_line.p1 += diff
-        self.o_line.p0 += diff
-        self.o_line.p1 += diff
+        self.a_line.p0 = self.a_line.p0 + diff
+        self.a_line.p1 = self.a_line.p1 + diff
+        self.p_line.p0 = self.p_line.p0 + diff
+        self.p_line.p1 = self.p_line.p1 + diff
+        self.d_line.p0 = self.d_line.p0 + diff
+        self.d_line.p1 = self.d_line.p1 + diff
+        self.o_line.p0 = self.o_line.p0 + diff
+        self.o_line.p1 = self.o_line.p1 + diff
 
 
 @dataclasses.dataclass
-- 
2.43.0


From ccb1365c5a444c8d74d94c7a5fa47d6933524138 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:27 +0000
Subject: [PATCH 29/69] fix: cone angles from tooth numbers for axis angles
 other than 90 degrees

---
 src/gggears/gearmath.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..cf15115 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -29,9 +29,8 @@ def cone_angle_from_teeth(
     cosfi = np.cos(axis_angle)
     a = float(num_teeth_1)
     b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
-    gamma1 = np.pi - axis_angle - gamma2
+    gamma2 = np.arctan2(b * np.sin(axis_angle), a + b * cosfi)
+    gamma1 = axis_angle - gamma2
     return np.array((gamma1 * 2, gamma2 * 2))
 
 
-- 
2.43.0


From 6c9ce1ac900a8b3c0ae65f7615fe6827d9b5740a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 30/69] fix: backlash_from_ax_distance is the inverse of
 calc_involute_mesh_distance

---
 src/gggears/gearmath.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf15115..b57ef17 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -138,20 +138,18 @@ def backlash_from_ax_distance(
     backlash : float
         Backlash between the two gears.
     """
+    d1 = r_base_1 * np.abs(angle_base_1)
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
-        a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        bl_sign = np.sign(d2 - d1)
+        a = np.arccos(np.abs((r_base_2 - r_base_1) / Distance))
+        # np.tan(a) - a = (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        backlash = 2 * bl_sign * (d2 - d1 - (np.tan(a) - a) * (r_base_2 - r_base_1))
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d2 = r_base_2 * (pitch_angle_2 / 2 - np.abs(angle_base_2))
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        # np.tan(a) - a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From 2837123758239916127eafcff9f802e74fbae2b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 31/69] fix: placements do not share arrays between gears or
 with the library constants

---
 src/gggears/gearmath.py             |  2 +-
 src/gggears/gggears_base_classes.py |  4 ++--
 src/gggears/gggears_core.py         |  2 +-
 src/gggears/gggears_wrapper.py      | 16 ++++++++++------
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index b57ef17..d4107d1 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -335,7 +335,7 @@ def calc_mesh_orientation(
     else:
         target_dir_norm = normalize_vector(target_dir_norm)
     if gear_1_cone_angle == 0 and gear_2_cone_angle == 0:
-        return gear2.orientation
+        return gear2.orientation.copy()
     else:
         if inside_ring_2:
             angle_ref = gamma_2 - gamma_1 + offset / R
diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index b6ddc2a..abc4f15 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,8 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3.copy())
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 8ee3c92..ebb6329 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1062,7 +1062,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 66e2017..d1f0891 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -586,7 +586,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -703,7 +703,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -718,8 +720,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1760,7 +1762,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=np.array(self.inputparam.center, dtype=float),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1857,7 +1859,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
-- 
2.43.0


From 7e2de8085114e1296b8df781404e44e7a004db1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 32/69] fix: reset_location restores the original center and
 angle

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index d1f0891..48bc623 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -720,9 +720,9 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.center = np.array(self.inputparam.center, dtype=float)
         self.gearcore.transform.orientation = UNIT3X3.copy()
-        self.gearcore.transform.angle = 0
+        self.gearcore.transform.angle = self.inputparam.angle
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From fac8a30e27f27112debd897fe49fa859ba81e230 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:03 +0000
Subject: [PATCH 33/69] fix: adapting cycloid radii keeps the placement and
 discards the outdated part

---
 src/gggears/gggears_wrapper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 48bc623..3c8278c 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1920,8 +1920,13 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
+        for gear in (self, other):
+            transform = gear.gearcore.transform
+            gear.calc_params()
+            # only the tooth shape changes, the placement is kept
+            gear.gearcore.transform = transform
+            # the part built with the old shape is obsolete
+            gear.builder = None
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 58752e74cb007790ecd7fbc752a6d52d1ffa3f70 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:08 +0000
Subject: [PATCH 34/69] fix: a failed bevel gear build leaves the height range
 of the gear unchanged

---
 src/gggears/gggears_build123d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index fde61b3..3fa8cca 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -94,14 +94,16 @@ class GearBuilder(GearToNurbs):
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
             gear.z_vals[-1] += side_surface_extension_ratio * zdiff
             gear.z_vals[0] -= side_surface_extension_ratio * zdiff
-            super().__init__(
-                gear=gear,
-                n_points_hz=n_points_hz,
-                n_points_vert=n_points_vert,
-                oversampling_ratio=oversampling_ratio,
-            )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            try:
+                super().__init__(
+                    gear=gear,
+                    n_points_hz=n_points_hz,
+                    n_points_vert=n_points_vert,
+                    oversampling_ratio=oversampling_ratio,
+                )
+            finally:
+                # restore original z_vals, also when the conversion fails
+                gear.z_vals = z_vals_save
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From 432e7458650d67c440483f63a0c0357319bf642b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 35/69] fix: meshing core bevel gears respects their module and
 position

---
 src/gggears/gggears_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index ebb6329..9453d8e 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1031,8 +1031,8 @@ class Gear:
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                self.cone_at_z(0),
+                other.cone_at_z(0),
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
-- 
2.43.0


From 23f9e0c2050f28f0242d5c88a4cb73db6e5c73dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:48 +0000
Subject: [PATCH 36/69] fix: ArcCurve.from_radius_center_angle revolves around
 its axis when that is UP or DOWN

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index bb6cf13..5780d25 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1305,13 +1305,13 @@ class ArcCurve(Curve):
             x = normalize_vector(x)
         y = np.cross(z, x)
         R = np.transpose(np.array([x, y, z]))
-        # in theory this should not return any yaw value
+        # yaw is only non-zero when the axis is parallel to UP
         yaw, pitch, roll = scp_Rotation.from_matrix(R).as_euler("zyx")
         return cls(
             radius=radius,
             angle=angle_end - angle_start,
             center=center,
-            yaw=angle_start,
+            yaw=yaw + angle_start,
             pitch=pitch,
             roll=roll,
             active=active,
-- 
2.43.0


From 4b25ca41918f9c0ec64a988b55a5ab2fee12bcc4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:48 +0000
Subject: [PATCH 37/69] fix: transforming an arc with a mirroring
 transformation mirrors it

---
 src/gggears/curve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 5780d25..403a125 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1320,8 +1320,11 @@ class ArcCurve(Curve):
     def transform(self, transform: callable) -> "ArcCurve":
         p0 = transform(self(0))
         center0 = transform(self._center)
-        center2 = transform(self.center + self.axis)
-        axis2 = normalize_vector(center2 - center0)
+        # built from the transformed x and y axes, so that a mirrored arc turns the
+        # other way around
+        x2 = transform(self._center + self._rotmat @ RIGHT) - center0
+        y2 = transform(self._center + self._rotmat @ UP) - center0
+        axis2 = normalize_vector(np.cross(x2, y2))
         return ArcCurve.from_point_center_angle(
             p0,
             center0,
-- 
2.43.0


From 4ead77d82ec34e45b9b37064470d5ea1883b37f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:48 +0000
Subject: [PATCH 38/69] fix: lines and arcs do not share arrays with their
 arguments or the library constants

---
 src/gggears/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 403a125..559b8f5 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1085,8 +1085,9 @@ class LineCurve(Curve):
     """Class to represent a line as a Curve."""
 
     def __init__(self, p0=ORIGIN, p1=ORIGIN, active=True, enable_vectorize=False):
-        self.p0 = p0
-        self.p1 = p1
+        # own copies: the defaults and arguments must not follow changes of the curve
+        self.p0 = np.array(p0)
+        self.p1 = np.array(p1)
         super().__init__(
             self.line_func,
             active,
@@ -1130,7 +1131,7 @@ class ArcCurve(Curve):
     ):
         self._radius = radius
         self._angle = angle
-        self._center = center
+        self._center = np.array(center)
         self._yaw = yaw
         self._pitch = pitch
         self._roll = roll
-- 
2.43.0


From 33905d667644de1787ffa57cfdd5cb32cd7f72c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 39/69] fix: setting the center of a gear stores the values,
 not the array of the caller

---
 src/gggears/gggears_core.py    | 2 +-
 src/gggears/gggears_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 9453d8e..14ebf04 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -968,7 +968,7 @@ class Gear:
 
     @center.setter
     def center(self, value):
-        self.transform.center = value
+        self.transform.center = np.array(value, dtype=float)
 
     @property
     def center_sphere(self):
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 3c8278c..35bafee 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -83,7 +83,7 @@ class GearInfoMixin:
 
     @center.setter
     def center(self, value):
-        self.gearcore.transform.center = value
+        self.gearcore.transform.center = np.array(value, dtype=float)
 
     @property
     def center_spherical(self):
-- 
2.43.0


From adf05c4486a33ac0a66d5006a931590a2e737e2d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 40/69] fix: gears remember their original center independently
 of the array passed in

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 35bafee..48c6317 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -291,7 +291,7 @@ class InvoluteInputParam:
     height: float = 1.0
     helix_angle: float = 0
     cone_angle: float = 0
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
     angle: float = 0
     module: float = 1.0
     enable_undercut: bool = True
@@ -408,7 +408,7 @@ class InvoluteGear(GearInfoMixin):
             height=height,
             helix_angle=helix_angle,
             cone_angle=cone_angle,
-            center=center,
+            center=np.array(center, dtype=float),
             angle=angle,
             module=module,
             enable_undercut=enable_undercut,
@@ -1523,7 +1523,7 @@ class CycloidInputParam:
     height: float = 1.0
     helix_angle: float = 0
     cone_angle: float = 0
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
     angle: float = 0
     module: float = 1.0
     enable_undercut: bool = True
@@ -1644,7 +1644,7 @@ class CycloidGear(GearInfoMixin):
             number_of_teeth=number_of_teeth,
             height=height,
             cone_angle=cone_angle,
-            center=center,
+            center=np.array(center, dtype=float),
             angle=angle,
             module=module,
             root_fillet=root_fillet,
-- 
2.43.0


From d5b7333b5efd90ee8ba73fabc7007b240227e58d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:10 +0000
Subject: [PATCH 41/69] fix: a helical gear in a ring gear of different helix
 tilts until the teeth line up

---
 src/gggears/gggears_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 48c6317..b5db697 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1171,9 +1171,11 @@ class HelicalGear(InvoluteGear):
         super().mesh_to(other, target_dir)
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        if self.inside_teeth or other.inside_teeth:
-            # internal pairs run with the same hand of helix
+        # internal pairs run with the same hand of helix
+        if self.inside_teeth:
             angle_axis = self.beta - other.beta
+        elif other.inside_teeth:
+            angle_axis = other.beta - self.beta
         else:
             angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
-- 
2.43.0


From b6a3464a44b70b33f8490fe204a9fa26d60a2f8b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:23 +0000
Subject: [PATCH 42/69] fix: crossed helical gears are placed at the distance
 of their pitch cylinders

---
 src/gggears/gggears_wrapper.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index b5db697..360ecf4 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1182,6 +1182,18 @@ class HelicalGear(InvoluteGear):
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
         )
+        if np.abs(angle_axis) > 1e-9:
+            # the transverse involutes of crossed gears do not lie in a common plane,
+            # the (shifted) pitch cylinders touch
+            r1 = self.rp + self.inputparam.profile_shift * self.module
+            r2 = other.rp + other.inputparam.profile_shift * other.module
+            if self.inside_teeth or other.inside_teeth:
+                distance = np.abs(r1 - r2)
+            else:
+                distance = r1 + r2
+            self.gearcore.transform.center = (
+                other.gearcore.transform.center - rot_axis * distance
+            )
 
 
 class HelicalRingGear(InvoluteGear):
-- 
2.43.0


From d0e902b243727f991610bb9c1a1f8e5208fef5f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:04 +0000
Subject: [PATCH 43/69] fix: a plain transform times a gear transform keeps the
 angle of the gear transform

---
 src/gggears/gggears_base_classes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index abc4f15..14a84e6 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -84,7 +84,10 @@ class TransformData:
         if isinstance(other, TransformData):
             return TransformData(
                 center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                # the angle of a gear transform is part of its rotation
+                orientation=self.orientation
+                @ other.affine_matrix[:3, :3]
+                / other.scale,
                 scale=self.scale * other.scale,
             )
         elif isinstance(other, np.ndarray):
@@ -134,7 +137,10 @@ class Transform(TransformData):
         if isinstance(other, TransformData):
             return Transform(
                 center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                # the angle of a gear transform is part of its rotation
+                orientation=self.orientation
+                @ other.affine_matrix[:3, :3]
+                / other.scale,
                 scale=self.scale * other.scale,
             )
         elif isinstance(other, np.ndarray):
-- 
2.43.0


From 4ab2ed2bd55c020b3157f989828e577dbb8dadfb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:14 +0000
Subject: [PATCH 44/69] fix: arcs can be evaluated at arrays of parameters

---
 src/gggears/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 559b8f5..c3c8d86 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1136,7 +1136,7 @@ class ArcCurve(Curve):
         self._pitch = pitch
         self._roll = roll
         self._rotmat = self.gen_rotmat()
-        super().__init__(self.arcfunc, active=active, enable_vectorize=False)
+        super().__init__(self.arcfunc, active=active, enable_vectorize=True)
 
     def gen_rotmat(self):
         return scp_Rotation.from_euler(
-- 
2.43.0


From 4d214d19f7ef72eb10df29d9d612fbc5c4ab2038 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 45/69] fix: chains of curves can be multiplied and divided by
 scalars

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index c3c8d86..0dc91b5 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -316,7 +316,7 @@ class Curve:
                 t0=0,
                 t1=1,
                 params={"curve": self, "val": other},
-                enable_vectorize=self.enable_vectorize,
+                enable_vectorize=False,
             )
         else:
             raise TypeError(
@@ -336,7 +336,7 @@ class Curve:
                 t0=0,
                 t1=1,
                 params={},
-                enable_vectorize=self.enable_vectorize,
+                enable_vectorize=False,
             )
         else:
             raise TypeError(
-- 
2.43.0


From ca304efb4610245193ee70ab4c083e7972e2039d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 46/69] fix: copies of a curve divided by a scalar are
 independent of the dividend

---
 src/gggears/curve.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 0dc91b5..4b1af4a 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -330,12 +330,16 @@ class Curve:
     def __truediv__(self, other):
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
+
+            def div_func(t, curve=self, val=other):
+                return curve(t) / val
+
             return Curve(
-                lambda t: self(t) / other,
+                div_func,
                 active=self.active,
                 t0=0,
                 t1=1,
-                params={},
+                params={"curve": self, "val": other},
                 enable_vectorize=False,
             )
         else:
-- 
2.43.0


From a7fa8c177eb962896f1e34809b85f9547ce1f51e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:25 +0000
Subject: [PATCH 47/69] fix: continuous boundary of a section lies at the
 height, twist and scale of the section

---
 src/gggears/gggears_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 14ebf04..87ef67b 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1004,9 +1004,10 @@ class Gear:
 
     def boundary_at_z(self, z, continuous=True):
         if continuous:
+            profile = self.curve_gen_at_z(z)
             return crv.TransformedCurve(
-                self.transform,
-                generate_boundary(self.curve_gen_at_z(z), self.tooth_param),
+                self.transform * profile.transform,
+                generate_boundary(profile, self.tooth_param),
             )
         else:
             return crv.TransformedCurve(
-- 
2.43.0


From f7b777422bc770d43e04a00bfa3685f7a0abdecb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:20 +0000
Subject: [PATCH 48/69] fix: undercut of octoid teeth that reach the dedendum
 without extension

---
 src/gggears/gearteeth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index e40ca42..407b576 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -550,8 +550,10 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
+    if (
+        isinstance(tooth_curve, crv.CurveChain)
+        and sol.x[0] < tooth_curve.get_length_portions()[1]
+    ):
         # undercut intersecting the involute-extension line is unlikely,
         # try again with a different guess
         sol = crv.find_curve_intersect(
-- 
2.43.0


From e9e160f40ca3b3bc66393b10ef294c00a7113c8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 49/69] fix: bevel teeth without undercut reach the root cone
 for any dedendum and profile shift

---
 src/gggears/gggears_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 360ecf4..f3ef654 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -558,6 +558,7 @@ class InvoluteGear(GearInfoMixin):
                     pressure_angle=self.inputparam.pressure_angle,
                     pitch_radius=rp_ref,
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
+                    ref_limits=limits,
                     cone_angle=self.inputparam.cone_angle,
                 )
         self.gearcore = Gear(
-- 
2.43.0


From 60bddc2fd0be136d567f1a06f0effee3b3a30f4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 50/69] fix: tip of a tooth is not looked for behind the gear
 axis

---
 src/gggears/gggears_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 87ef67b..1bcaa96 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -211,8 +211,10 @@ def apply_tip_reduction(
     r_out = rah
     for guess in np.linspace(0.1, 0.9, 4):
         sol1 = crv.find_curve_plane_intersect(tooth_curve, plane_normal=UP, guess=guess)
-        r_sol = polar_transformer.polar_transform(tooth_curve(sol1.x[0]))[0]
-        if sol1.success and r_sol > rdh:
+        p_sol = tooth_curve(sol1.x[0])
+        r_sol = polar_transformer.polar_transform(p_sol)[0]
+        # the plane also crosses the tooth curve's extension behind the gear axis
+        if sol1.success and r_sol > rdh and p_sol[0] > 0:
             soldata.append((sol1, r_sol))
 
     if len(soldata) > 0:
-- 
2.43.0


From e1077e80eb7eea618c386904b73236a968f07bb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:51 +0000
Subject: [PATCH 51/69] fix: flank of a conic tooth is extended to the root
 cone

---
 src/gggears/gggears_base_classes.py | 49 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index 14a84e6..82f0c9a 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -3,6 +3,7 @@ import copy
 import gggears.curve as crv
 import numpy as np
 from gggears.defs import *
+from scipy.optimize import minimize_scalar, root
 from scipy.spatial.transform import Rotation as scp_Rotation
 from gggears.function_generators import angle_between_vector_and_plane
 
@@ -589,35 +590,41 @@ class GearToothConicGenerator(GearToothGenerator):
             R = self.conic_data.R
             h_d_angle = PI / 2 - gamma + self.ref_limits.h_d / R
             z_center = R * np.cos(gamma)
-            h_d_point = crv.find_curve_plane_intersect(
-                tooth_curve,
-                plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                offset=z_center * OUT,
-                guess=0,
-            )
-            if not h_d_point.success:
-                h_d_point = crv.find_curve_plane_intersect(
-                    tooth_curve,
-                    plane_normal=scp_Rotation.from_euler("y", h_d_angle).apply(OUT),
-                    offset=z_center * OUT,
-                    method=crv.IntersectMethod.MINDISTANCE,
-                    guess=0,
+            apex = z_center * OUT
+
+            def height_over_root(t):
+                # angle between the root cone and the point of the tooth curve
+                return h_d_angle - angle_between_vector_and_plane(
+                    tooth_curve(t) - apex, OUT
                 )
-                tooth_curve.set_start_on(h_d_point.x[0])
-                bottom_angle = np.abs(
-                    angle_between_vector_and_plane(tooth_curve(0), OUT) - h_d_angle
+
+            # follow the curve inwards, not beyond its innermost point: it turns back
+            # outwards there, and it may cross the root cone again on that branch
+            t_d = 0
+            step = 0.05
+            while 0 < height_over_root(t_d) > height_over_root(t_d - step):
+                t_d -= step
+            if height_over_root(t_d) <= 0:
+                sol = root(lambda t: height_over_root(t[0]), t_d)
+                tooth_curve.set_start_on(sol.x[0])
+                return tooth_curve
+            else:
+                sol = minimize_scalar(
+                    height_over_root, bounds=(t_d - step, t_d + step), method="bounded"
                 )
+                if sol.fun <= 0:
+                    sol = root(lambda t: height_over_root(t[0]), t_d + step)
+                    tooth_curve.set_start_on(sol.x[0])
+                    return tooth_curve
+                tooth_curve.set_start_on(sol.x)
                 connector_curve = crv.ArcCurve.from_point_center_angle(
                     p0=tooth_curve(0),
-                    center=OUT * R * np.cos(gamma),
-                    angle=bottom_angle,
+                    center=apex,
+                    angle=height_over_root(0),
                     axis=UP,
                 )
                 connector_curve.reverse()
                 return crv.CurveChain(connector_curve, tooth_curve)
-            else:
-                tooth_curve.set_start_on(h_d_point.x[0])
-                return tooth_curve
 
 
 class RackToothGenerator(ZFunctionMixin):
-- 
2.43.0


From 5786dedf7b9163f0d5e76722cde2356086ec0e97 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 52/69] fix: involute_sphere of zero curvature respects the
 axial offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index a135b24..ab6d2b6 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
-- 
2.43.0


From 3470766f5d1d78d2d70f69b5334ef9b65ad413ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 53/69] fix: cycloid_cone of zero curvature is the planar
 cycloid

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index ab6d2b6..7eac906 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
-- 
2.43.0


From bf93fca7f0bab85294dbed0d62d9eaf13380cb80 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 54/69] fix: octoid curves respect the axial offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 7eac906..3ff6820 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -676,4 +676,4 @@ def octoid(
     rot = scp_Rotation.from_euler("yz", angles=[PI, PI / 2 + angle])
     zshift = np.sqrt(sphere_rad**2 - base_rad**2)
     v = rot.apply(v)
-    return v + zshift * OUT
+    return v + (zshift + z_offs) * OUT
-- 
2.43.0


From 4c01342308a0c31a78b6c22119fbbea6e7977abe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:08 +0000
Subject: [PATCH 55/69] fix: mesh distance of gears with a small operating
 pressure angle

---
 src/gggears/gearmath.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index d4107d1..5ecd588 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -77,12 +77,9 @@ def calc_involute_mesh_distance(
         d1 = r_base_1 * np.abs(angle_base_1)
         d2 = r_base_2 * np.abs(angle_base_2)
         bl_sign = np.sign(d2 - d1)
-        sol = root(
-            lambda a: np.tan(a)
-            - a
-            + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1),
-            0,
-        )
+        inv_a = (d1 - d2 + backlash / 2 * bl_sign) / (r_base_2 - r_base_1)
+        # close to the solution from above, as tan(a) - a is flat at 0
+        sol = root(lambda a: np.tan(a) - a - inv_a, np.cbrt(3 * inv_a))
         Dist = (r_base_2 - r_base_1) / np.cos(sol.x[0])
     else:
 
@@ -94,10 +91,8 @@ def calc_involute_mesh_distance(
         # )
         d1 = r_base_1 * ((angle_base_1))
         d2 = r_base_2 * (pitch_angle_2 / 2 - (angle_base_2))
-        sol = root(
-            lambda a: a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2),
-            0.0,
-        )
+        inv_a = (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2)
+        sol = root(lambda a: np.tan(a) - a - inv_a, np.cbrt(3 * inv_a))
         Dist = (r_base_1 + r_base_2) / np.cos(sol.x[0])
 
     return Dist
-- 
2.43.0


From 4aa98d36926f3f55564b6f79eb6b81dac10bc41c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:10 +0000
Subject: [PATCH 56/69] fix: search for a fillet on both sides of the corner

---
 src/gggears/curve.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 4b1af4a..761fddc 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -666,7 +666,7 @@ class CurveChain(Curve):
         Suitable points for tangent arc are searched with starting points at the specified single location.
         """
         return self.fillet_at_locations(
-            radius, [location + radius / self.length, location - radius / self.length]
+            radius, [location - 10 * DELTA, location + 10 * DELTA]
         )
 
     def fillet_at_index(self, radius, index):
@@ -1037,15 +1037,12 @@ def fillet_curve(input_curves: CurveChain, radius: float, start_locations=[0.5,
         # return [np.linalg.norm(center1-center2),np.linalg.norm(center1-center2)]
         return center1 - center2
 
-    sol1 = root(cost_fun, np.array([0, 0, 0]))
-    if not sol1.success:
-        # try again with different first guess
-        guess2 = radius / input_curves.length
-        sol1 = root(cost_fun, np.array([guess2, guess2, 0]))
-    if not sol1.success:
-        # try again with different first guess
-        guess2 = radius / input_curves.length
-        sol1 = root(cost_fun, np.array([DELTA, DELTA, 0]))
+    # try different first guesses until one leads to a solution on the two sides
+    guess2 = radius / input_curves.length
+    for guess in (0, guess2, DELTA, guess2 / 4, guess2 * 4):
+        sol1 = root(cost_fun, np.array([guess, guess, 0]))
+        if sol1.success and min(sol1.x[0], sol1.x[1]) > -DELTA:
+            break
     t1 = start_locations[0] - sol1.x[0]
     t2 = start_locations[1] + sol1.x[1]
 
-- 
2.43.0


From f70b19f700bb1e16007ab57e4481fd7d9b978466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:40 +0000
Subject: [PATCH 57/69] fix: line of action of gears that are not in the XY
 plane

---
 src/gggears/gggears_wrapper.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index f3ef654..163f80c 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2001,6 +2001,12 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        z_axis = self.gear1.gearcore.transform.z_axis
+
+        def rotate_in_plane(v, angle):
+            # rotation in the plane of the gears
+            return scp_Rotation.from_rotvec(z_axis * angle).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
@@ -2013,9 +2019,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear2.addendum_radius**2 - rb2**2)
-            startpoint1 = center2 + rotate_vector(-diff_vector_unit, alpha) * rb2
+            startpoint1 = center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2
             endpoint1 = (
-                startpoint1 + rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 + rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2029,9 +2035,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear1.addendum_radius**2 - rb1**2)
-            startpoint1 = center1 + rotate_vector(-diff_vector_unit, alpha) * rb1
+            startpoint1 = center1 + rotate_in_plane(-diff_vector_unit, alpha) * rb1
             endpoint1 = (
-                startpoint1 - rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 - rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2045,12 +2051,12 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb1 + rb2) / distance)
             line1 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2,
             )
             line2 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, -alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, -alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, -alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, -alpha) * rb2,
             )
             return line1, line2
 
-- 
2.43.0


From 7f5bf819f36adf887b9c2ac1e1a4e42b70f4ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:12 +0000
Subject: [PATCH 58/69] fix: undercut and flank of a tooth meet also where they
 are nearly tangent

---
 src/gggears/gearteeth.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 407b576..16a8e84 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -2,7 +2,7 @@ from gggears.gggears_base_classes import *
 from gggears.function_generators import *
 from gggears import curve as crv
 from gggears.defs import *
-from scipy.optimize import root, minimize
+from scipy.optimize import least_squares, root, minimize
 from scipy.spatial.transform import Rotation as scp_Rotation
 
 
@@ -541,15 +541,25 @@ def trim_involute_undercut(
     """Find the intersection and trim the tooth curve (involute curve)
     with undercut curve."""
 
+    def gap(t):
+        return tooth_curve(t[0]) - undercut_curve(t[1])
+
+    def refine(sol):
+        # the curves may be nearly tangent, where the solvers stop before they meet
+        return least_squares(
+            gap, sol.x[:2], xtol=1e-15, ftol=1e-15, gtol=1e-15, max_nfev=1000
+        )
+
     sol = crv.find_curve_intersect(tooth_curve, undercut_curve, guess=guess)
 
     if not sol.success:
-        sol = crv.find_curve_intersect(
+        sol_min = crv.find_curve_intersect(
             tooth_curve,
             undercut_curve,
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
+        sol = min(refine(sol), refine(sol_min), key=lambda res: res.cost)
     if (
         isinstance(tooth_curve, crv.CurveChain)
         and sol.x[0] < tooth_curve.get_length_portions()[1]
@@ -559,6 +569,8 @@ def trim_involute_undercut(
         sol = crv.find_curve_intersect(
             tooth_curve, undercut_curve, guess=sol.x[:2] + np.array([0.2, 0.2])
         )
+    if np.linalg.norm(gap(sol.x)) > 1e-9:
+        sol = refine(sol)
 
     tooth_curve.set_start_on(sol.x[0])
     undercut_curve.set_end_on(sol.x[1])
-- 
2.43.0


From cada10f8e5d29aec01a325afeb0c9a304be69aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:30 +0000
Subject: [PATCH 59/69] fix: offset of a rack is scaled with the module

---
 src/gggears/gggears_wrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 163f80c..2950758 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2241,8 +2241,10 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
@@ -2444,8 +2446,10 @@ class HelicalRack(InvoluteRack):
             self.part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        self.part_transformed = self.part.scale(self.module)
+        self.part_transformed = self.part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         self.part_transformed = (
-- 
2.43.0


From c1bd18f38401799122a5fb840a1fcb40997366e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:14 +0000
Subject: [PATCH 60/69] fix: mesh distance of crowned gears is that of their
 nominal section

---
 src/gggears/gggears_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 2950758..8412e61 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -459,7 +459,8 @@ class InvoluteGear(GearInfoMixin):
         Angle of the starting point of the involute curve of a tooth in the
         default position.
         """
-        tooth_gen = self.gearcore.shape_recipe(0).tooth_generator
+        # at mid-height, where the tooth width is nominal in case of crowning
+        tooth_gen = self.gearcore.shape_recipe(self.p2z(0.5)).tooth_generator
         if isinstance(tooth_gen, (InvoluteTooth, InvoluteUndercutTooth)):
             return tooth_gen.get_base_angle()
         else:
-- 
2.43.0


From 3b111110985c0190f492be2e2da6a3442e41ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:49 +0000
Subject: [PATCH 61/69] fix: long herringbone gears get sections of sensible
 height

The extra z values for strongly twisted gears were merged with the existing
ones by np.unique, so that rounding could leave two values at mid-height.
---
 src/gggears/gggears_wrapper.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 8412e61..84af935 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1154,14 +1154,14 @@ class HelicalGear(InvoluteGear):
         twist_angle = np.abs(max_angle - min_angle)
 
         if twist_angle > 2 * PI:
-            z_add = int(twist_angle // (2 * PI) * (len(self.gearcore.z_vals) - 1))
-            new_z_vals = np.linspace(
-                self.gearcore.z_vals[0],
-                self.gearcore.z_vals[-1],
-                z_add + len(self.gearcore.z_vals),
-            )
-            new_z_vals = np.unique((np.concatenate((new_z_vals, self.gearcore.z_vals))))
-            self.gearcore.z_vals = new_z_vals
+            # divide each section, so that the existing z values are kept as they are
+            n_div = 1 + int(twist_angle // (2 * PI))
+            z_vals = self.gearcore.z_vals
+            sections = [
+                np.linspace(z0, z1, n_div, endpoint=False)
+                for z0, z1 in zip(z_vals[:-1], z_vals[1:])
+            ]
+            self.gearcore.z_vals = np.concatenate((*sections, z_vals[-1:]))
 
     @property
     def beta(self):
-- 
2.43.0


From a23baddbbd97f086bd1227ce4a196be511cbf54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:37 +0000
Subject: [PATCH 62/69] fix: long helical ring gears follow their helix

---
 src/gggears/gggears_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 84af935..455651f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1367,7 +1367,7 @@ class HelicalRingGear(InvoluteGear):
             elif twist_angle < PI / 2:
                 n_vert = 4
             else:
-                n_vert = 5
+                n_vert = 3 + int(twist_angle / (PI / 6))
         self.builder = GearBuilder(
             self.gearcore,
             n_points_hz=4,
-- 
2.43.0


From a26b71ea39fed6d5ea189579bbb67df2c48c254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:44 +0000
Subject: [PATCH 63/69] fix: racks keep their own copy of position and
 orientation

---
 src/gggears/gggears_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 455651f..c1f27ef 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2150,8 +2150,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = np.array(position, dtype=float)
+        self.orientation = np.array(orientation, dtype=float)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From f7a92d8f45f4e4eec9549c3443c5d7e87cec336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:50 +0000
Subject: [PATCH 64/69] fix: arcs are converted to NURBS by the angle they
 span, not the one they were made with

---
 src/gggears/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 761fddc..8e545e1 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -947,7 +947,8 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             bz_points = np.array([input_curve(0), input_curve(1)])
             bz_weights = np.ones((2))
         elif isinstance(input_curve, ArcCurve):
-            if abs(input_curve.angle) < PI:
+            arc_angle = input_curve.angle * (input_curve.t_1 - input_curve.t_0)
+            if abs(arc_angle) < PI:
                 bz_points, bz_weights = calc_nurbezier_arc(
                     input_curve(0), input_curve(1), input_curve.center
                 )
-- 
2.43.0


From cdbd8b84c40f8f240610de1532f2bc082da395c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:32 +0000
Subject: [PATCH 65/69] fix: undercut and flank are joined also when the
 solvers miss their crossing

---
 src/gggears/gearteeth.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 16a8e84..977f22e 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -571,6 +571,20 @@ def trim_involute_undercut(
         )
     if np.linalg.norm(gap(sol.x)) > 1e-9:
         sol = refine(sol)
+    if np.linalg.norm(gap(sol.x)) > 1e-6:
+        # no start led to the crossing: begin where the curves come closest
+        t = np.linspace(0, 1, 65)
+        grid = np.linalg.norm(
+            np.array([tooth_curve(ti) for ti in t])[:, np.newaxis, :]
+            - np.array([undercut_curve(ti) for ti in t])[np.newaxis, :, :],
+            axis=2,
+        )
+        i, j = np.unravel_index(np.argmin(grid), grid.shape)
+        retry = least_squares(
+            gap, [t[i], t[j]], xtol=1e-15, ftol=1e-15, gtol=1e-15, max_nfev=1000
+        )
+        if np.linalg.norm(gap(retry.x)) < np.linalg.norm(gap(sol.x)):
+            sol = retry
 
     tooth_curve.set_start_on(sol.x[0])
     undercut_curve.set_end_on(sol.x[1])
-- 
2.43.0


From ae66d6607488415b6ec811a9c6d721057bc79ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:30 +0000
Subject: [PATCH 66/69] fix: a root fillet a little too large for the space is
 found between the flanks

---
 src/gggears/gggears_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 1bcaa96..06e9caa 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -255,6 +255,7 @@ def apply_fillet(
         angle = -np.arctan2(p[1], p[0])
         return 0 < angle < pitch_angle / 2
 
+    flank_guess = None
     ref_circle_guess = -pitch_angle / (2 * PI) / 4 * 1.01
     sol1 = crv.find_curve_intersect(
         tooth_curve,
@@ -301,6 +302,9 @@ def apply_fillet(
                 tooth_curve.append(arc)
         else:
             sharp_root = True
+            # the fillet reaches past the middle: it touches both flanks near here
+            if sol.success:
+                flank_guess = t2 if direction == 1 else t1
     else:
         sharp_root = True
 
@@ -315,6 +319,10 @@ def apply_fillet(
             1 - fillet_radius / tooth_curve.length,
             0 + fillet_radius / tooth_curve.length,
         ]
+        if flank_guess is not None:
+            start_locations = [flank_guess, 1 - flank_guess]
+            if direction == 1:
+                start_locations.reverse()
 
         if direction == 1:
             arc, t1, t2, sol = crv.calc_tangent_arc(
-- 
2.43.0


From b497cac390aef6ae04f7543f5a27909ff4711c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:36 +0000
Subject: [PATCH 67/69] fix: tip truncation looks for the point of the tooth on
 the tooth only

---
 src/gggears/gggears_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 06e9caa..b731d89 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -213,8 +213,9 @@ def apply_tip_reduction(
         sol1 = crv.find_curve_plane_intersect(tooth_curve, plane_normal=UP, guess=guess)
         p_sol = tooth_curve(sol1.x[0])
         r_sol = polar_transformer.polar_transform(p_sol)[0]
-        # the plane also crosses the tooth curve's extension behind the gear axis
-        if sol1.success and r_sol > rdh and p_sol[0] > 0:
+        # the plane also crosses extensions of the tooth curve, e.g. behind the gear axis
+        on_curve = -1e-3 < sol1.x[0] < 1 + 1e-3
+        if sol1.success and on_curve and r_sol > rdh and p_sol[0] > 0:
             soldata.append((sol1, r_sol))
 
     if len(soldata) > 0:
-- 
2.43.0


From 1dfafb31c74f823e30cd63d9c50bcf8798819edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 68/69] fix: boundary curve of a partial gear can be generated

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index b731d89..051cb13 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -801,7 +801,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
         t0=0,
         t1=1,
         params={"curve": profile.profile},
-        lenght_approx_ndiv=toothdata.num_teeth * 20,
+        lenght_approx_ndiv=toothdata.num_teeth_act * 20,
     )
 
 
-- 
2.43.0


From ad779c5720c32c2dd946d6e674fb42c51759edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 69/69] fix: boundary edges of a partial gear have the number
 of teeth below, not the nearest

---
 src/gggears/gggears_build123d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 3fa8cca..5011cd1 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -530,9 +530,9 @@ def generate_boundary_edges(
         # the angle is stepped below, the caller's transform must not follow it
         transform = copy.copy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
-    # don't want to get more inputs about num of teeth, but without rounding this can
-    # lose 1 tooth
-    N = int(np.round(angle_range / nurbprofile.pitch_angle))
+    # don't want to get more inputs about num of teeth, but without tolerance this can
+    # lose 1 tooth (partial gears have the integer number of teeth below)
+    N = int(np.floor(angle_range / nurbprofile.pitch_angle + 1e-6))
 
     curves = []
     for i in range(N):
-- 
2.43.0

