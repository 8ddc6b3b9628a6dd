From 9e74f8c10b8779599314fd3011ff9403eaeab7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 01/72] fix: MirroredCoil places the lower coil at -Z and keeps
 current and control

---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..1290377 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -307,10 +307,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From 1123efc634e461832390f164b76327da2e629f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 02/72] fix: MultiCoil does not modify the filament lists
 passed by the caller when moved

---
 freegs/multi_coil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..4813f89 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,9 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            # Copy, so that moving the coil doesn't modify the caller's arrays
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
-- 
2.43.0


From 6fa7629067efa8bce0c391ac87258b117cb3e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 03/72] fix: MultiCoil at a single point carries current *
 turns

---
 freegs/multi_coil.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 4813f89..210ea55 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -146,6 +146,13 @@ class MultiCoil(Coil):
         self._R_centre = np.mean(self.Rfil)
         self._Z_centre = np.mean(self.Zfil)
 
+    def _turns_per_filament(self):
+        """
+        Each filament carries `current`, unless the block is a single
+        point which represents `turns` turns
+        """
+        return self.turns / len(self.Rfil)
+
     def controlPsi(self, R, Z):
         """
         Calculate poloidal flux at (R,Z) due to a unit current
@@ -158,7 +165,7 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self._turns_per_filament()
 
     def controlBr(self, R, Z):
         """
@@ -171,7 +178,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self._turns_per_filament()
 
     def controlBz(self, R, Z):
         """
@@ -184,7 +191,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self._turns_per_filament()
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From e8ae26eb19af4a3276278a319b6f59644afcacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 04/72] fix: PreCalcCoil includes number of turns in its
 response

---
 freegs/pre_calc_coil.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..ab8a14e 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        # Maps are for 1 A-turn
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +141,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        # Maps are for 1 A-turn
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +154,8 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        # Maps are for 1 A-turn
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From bce6320419d533f12aed22d928259926cc49aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 05/72] fix: FilamentCoil without a shape is centred on the
 middle of its filaments

---
 freegs/filament_coil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..47a9334 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -240,7 +240,6 @@ class FilamentCoil(Coil):
                 (minR, maxZ),
                 (maxR, maxZ),
                 (maxR, minZ),
-                (minR, minZ),
             ]
 
         assert len(shape) > 2
-- 
2.43.0


From bb9d936e5ab23b2e33662449dc7652339aea20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 06/72] fix: moving a ShapedCoil or FilamentCoil moves its
 outline too

---
 freegs/filament_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 47a9334..3b62cfd 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -325,6 +325,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -339,6 +340,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 43b8ca309ed68648d73947c64afd4935f32f8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 07/72] fix: FilamentCoil can be written to and read from file

---
 freegs/filament_coil.py | 69 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 3b62cfd..a4e98c5 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -188,6 +188,9 @@ class FilamentCoil(Coil):
             (str("turns"), int),
             (str("control"), bool),
             (str("npoints"), int),
+            (str("shapelen"), int),  # Length of shape_R and shape_Z arrays
+            (str("shape_R"), "500f8"),
+            (str("shape_Z"), "500f8"),
         ]
     )
 
@@ -313,6 +316,72 @@ class FilamentCoil(Coil):
             self.points, self.current, self.turns, self.control
         )
 
+    def __eq__(self, other):
+        return (
+            np.array_equal(np.asarray(self.points), np.asarray(other.points))
+            and np.array_equal(np.asarray(self.shape), np.asarray(other.shape))
+            and self.current == other.current
+            and self.turns == other.turns
+            and self.control == other.control
+        )
+
+    def __ne__(self, other):
+        return not self == other
+
+    def to_numpy_array(self):
+        """
+        Helper method for writing output
+        """
+        RZlen = len(self.points)
+        shapelen = len(self.shape)
+        if max(RZlen, shapelen) > 500:
+            raise ValueError("Can't store a FilamentCoil with more than 500 points")
+        R = np.zeros(500)
+        Z = np.zeros(500)
+        R[:RZlen] = [r for r, z in self.points]
+        Z[:RZlen] = [z for r, z in self.points]
+        shape_R = np.zeros(500)
+        shape_Z = np.zeros(500)
+        shape_R[:shapelen] = [r for r, z in self.shape]
+        shape_Z[:shapelen] = [z for r, z in self.shape]
+
+        return np.array(
+            (
+                RZlen,
+                R,
+                Z,
+                self.current,
+                self.turns,
+                self.control,
+                self.npoints,
+                shapelen,
+                shape_R,
+                shape_Z,
+            ),
+            dtype=self.dtype,
+        )
+
+    @classmethod
+    def from_numpy_array(cls, value):
+        if value.dtype != cls.dtype:
+            raise ValueError(
+                "Can't create {this} from dtype: {got} (expected: {dtype})".format(
+                    this=type(cls), got=value.dtype, dtype=cls.dtype
+                )
+            )
+        RZlen = value["RZlen"]
+        shapelen = value["shapelen"]
+        return FilamentCoil(
+            value["R"][:RZlen],
+            value["Z"][:RZlen],
+            shape=list(
+                zip(value["shape_R"][:shapelen], value["shape_Z"][:shapelen])
+            ),
+            current=value["current"],
+            turns=value["turns"],
+            control=value["control"],
+        )
+
     @property
     def R(self):
         """
-- 
2.43.0


From ebe8589f6555d78ba81465bfa4051605dde8100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 08/72] fix: MultiCoil can be written to and read from file

---
 freegs/dump.py       |  3 +++
 freegs/multi_coil.py | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..22294e5 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -40,6 +40,7 @@ from .equilibrium import Equilibrium
 from .machine import Coil, Circuit, Solenoid, Wall, Machine
 from .shaped_coil import ShapedCoil
 from .filament_coil import FilamentCoil
+from .multi_coil import MultiCoil
 from . import boundary
 from . import machine
 
@@ -116,6 +117,7 @@ class OutputFile(object):
         self.handle["coil_dtype"] = Coil.dtype
         self.handle["shapedcoil_dtype"] = ShapedCoil.dtype
         self.handle["filamentcoil_dtype"] = FilamentCoil.dtype
+        self.handle["multicoil_dtype"] = MultiCoil.dtype
         self.handle["circuit_dtype"] = Circuit.dtype
         self.handle["solenoid_dtype"] = Solenoid.dtype
 
@@ -123,6 +125,7 @@ class OutputFile(object):
             Coil.dtype: self.handle["coil_dtype"],
             ShapedCoil.dtype: self.handle["shapedcoil_dtype"],
             FilamentCoil.dtype: self.handle["filamentcoil_dtype"],
+            MultiCoil.dtype: self.handle["multicoil_dtype"],
             Circuit.dtype: self.handle["circuit_dtype"],
             Solenoid.dtype: self.handle["solenoid_dtype"],
         }
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 210ea55..58cb69f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -206,11 +206,13 @@ class MultiCoil(Coil):
 
     def __eq__(self, other):
         return (
-            self.R == other.R
-            and self.Z == other.Z
+            np.array_equal(self.Rfil, other.Rfil)
+            and np.array_equal(self.Zfil, other.Zfil)
             and self.current == other.current
             and self.turns == other.turns
             and self.control == other.control
+            and self.mirror == other.mirror
+            and np.array_equal(self.polarity, other.polarity)
         )
 
     def __ne__(self, other):
@@ -256,8 +258,12 @@ class MultiCoil(Coil):
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
-        polarity = value["polarity"]
+        mirror = value["mirror"]
+        polarity = list(value["polarity"])
+
+        if RZlen == 1:
+            # A single point, which can have more than one turn
+            R, Z = R[0], Z[0]
 
         return MultiCoil(
             R,
-- 
2.43.0


From f3c1495f4fe45988d7221adf3738056834b396b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:34 +0000
Subject: [PATCH 09/72] fix: reading a Circuit whose first multiplier is zero
 doesn't give NaN currents

---
 freegs/machine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1290377..c98cea3 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -265,14 +265,17 @@ class Circuit:
             except TypeError:
                 return s  # Probably already a string
 
-        # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # Use the current from the first coil in the circuit which carries
+        # any, and the control from the first coil. Should be consistent!
+        current = next(
+            (c["current"] / m for _, c, m in value if m != 0.0), 0.0
+        )
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
+            current=current,
             control=value[0][1]["control"],
         )
 
-- 
2.43.0


From 2253b21403a65eccf9e31e3e987dbbc156237c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:03 +0000
Subject: [PATCH 10/72] fix: flux on the grid is right when coils share a label

---
 freegs/machine.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index c98cea3..3374c25 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -139,10 +139,8 @@ class Circuit:
         """
         Calculate Greens functions
         """
-        pgreen = {}
-        for label, coil, multiplier in self.coils:
-            pgreen[label] = coil.createPsiGreens(R, Z)
-        return pgreen
+        # Note: A list, because labels might not be unique
+        return [coil.createPsiGreens(R, Z) for label, coil, multiplier in self.coils]
 
     def calcPsiFromGreens(self, pgreen):
         """
@@ -150,9 +148,9 @@ class Circuit:
 
         """
         psival = 0.0
-        for label, coil, multiplier in self.coils:
+        for (label, coil, multiplier), greens in zip(self.coils, pgreen):
             coil.current = self.current * multiplier
-            psival += coil.calcPsiFromGreens(pgreen[label])
+            psival += coil.calcPsiFromGreens(greens)
         return psival
 
     def Br(self, R, Z):
@@ -719,10 +717,8 @@ class Machine:
         and puts into arrays for each coil. This map can then be
         called at a later time, and quickly return the field
         """
-        pgreen = {}
-        for label, coil in self.coils:
-            pgreen[label] = coil.createPsiGreens(R, Z)
-        return pgreen
+        # Note: A list, because labels might not be unique
+        return [coil.createPsiGreens(R, Z) for label, coil in self.coils]
 
     def calcPsiFromGreens(self, pgreen):
         """
@@ -730,8 +726,8 @@ class Machine:
         compute the plasma psi
         """
         psi_coils = 0.0
-        for label, coil in self.coils:
-            psi_coils += coil.calcPsiFromGreens(pgreen[label])
+        for (label, coil), greens in zip(self.coils, pgreen):
+            psi_coils += coil.calcPsiFromGreens(greens)
 
         return psi_coils
 
-- 
2.43.0


From 2e69501ddeae69ba23b3628f9f230406f5b3ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 11/72] fix: polygon intersection includes the last segment of
 open lines, and works at any scale

---
 freegs/polygons.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..d09ae5b 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -42,9 +42,9 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # Test for intersection between two line segments:
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
-            # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            # Note that if the polynomials are closed the indices wrap around
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
@@ -56,7 +56,8 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
 
             det = a * d - b * c
 
-            if abs(det) < 1e-6:
+            # Compare to lengths of the segments, so the test doesn't depend on scale
+            if abs(det) <= 1e-10 * (abs(a) + abs(c)) * (abs(b) + abs(d)):
                 continue  # Almost certainly doesn't intersect
 
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
-- 
2.43.0


From ea1957baa3100063e91cccd0240b817073f8b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:28 +0000
Subject: [PATCH 12/72] fix: triangulation of concave polygons covers the
 polygon, and terminates

---
 freegs/polygons.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index d09ae5b..4bb7650 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -103,6 +103,22 @@ def clockwise(polygon):
     return area(polygon) > 0
 
 
+def _in_triangle(triangle, point):
+    """
+    Is the point inside the (clockwise) triangle, or on its edges?
+    Not counting the corners of the triangle.
+    """
+    if any(point[0] == r and point[1] == z for r, z in triangle):
+        return False
+
+    for i in range(3):
+        r1, z1 = triangle[i - 1]
+        r2, z2 = triangle[i]
+        if (point[1] - z1) * (r2 - r1) - (point[0] - r1) * (z2 - z1) > 0:
+            return False  # Outside this edge
+    return True
+
+
 def triangulate(polygon):
     """
     Use the ear clipping method to turn an arbitrary polygon into triangles
@@ -138,30 +154,21 @@ def triangulate(polygon):
             if cross < 0:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # Check that no other vertex is inside this triangle
+            triangle = [prev_vert, vert, next_vert]
+            if cross > 0 and any(
+                _in_triangle(triangle, other) for other in polygon
+            ):
                 continue  # Skip
 
             # Found an ear
-            triangles.append([prev_vert, vert, next_vert])
+            triangles.append(triangle)
             # Remove this vertex
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Polygon can't be triangulated; edges may cross")
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From fd54cf6f1c55faa76ad8bc63791fa2367af1f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:17 +0000
Subject: [PATCH 13/72] fix: FilamentCoil can be filled with filaments given
 only its outline

---
 freegs/filament_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index a4e98c5..88f09ea 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -113,7 +113,7 @@ def populate_with_fils(shape, Nfils):
 
     # Now linearly interpolate to get the d that corresponds
     # to the closest nInside to Nfils
-    d_opt = np.interp([Nfils * 1.1], nInside_data, d_data)
+    d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
     rfils = []
-- 
2.43.0


From 5c45792ac16c11f42282508bbb0cb20888238533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:02 +0000
Subject: [PATCH 14/72] fix: FilamentCoil given an outline always has at least
 one filament

---
 freegs/filament_coil.py | 52 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 88f09ea..1a3c97b 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -116,40 +116,46 @@ def populate_with_fils(shape, Nfils):
     d_opt = np.interp(Nfils * 1.1, nInside_data, d_data)
 
     # Now get the locations of the filaments for this d = d_opt where nInside ~ Nfils
-    rfils = []
-    zfils = []
+    # If the interpolated spacing happens to put no points inside the shape
+    # then fall back to the last spacing tried, which had nInside >= Nfils
+    for d_opt in (d_opt, d_data[-1]):
+        rfils = []
+        zfils = []
 
-    # Number of filaments landing inside
-    nInside = 0
+        # Number of filaments landing inside
+        nInside = 0
 
-    i = 0  # Row counter used for staggering every other row
-    # Create the (non-staggered) grid points for the given d(=dR,dZ)
-    Rgrid = np.arange(rmin, rmax, d_opt, dtype=float)
-    Zgrid = np.arange(zmin, zmax, d_opt, dtype=float)
+        i = 0  # Row counter used for staggering every other row
+        # Create the (non-staggered) grid points for the given d(=dR,dZ)
+        Rgrid = np.arange(rmin, rmax, d_opt, dtype=float)
+        Zgrid = np.arange(zmin, zmax, d_opt, dtype=float)
 
-    nR = len(Rgrid)
-    nZ = len(Zgrid)
+        nR = len(Rgrid)
+        nZ = len(Zgrid)
 
-    for i in range(nZ):
+        for i in range(nZ):
 
-        zpoint = Zgrid[i]
+            zpoint = Zgrid[i]
 
-        if i % 2:  # Every other row, stagger R coords by 0.5*dR
-            offset = 0.5 * d_opt
-        else:
+            if i % 2:  # Every other row, stagger R coords by 0.5*dR
+                offset = 0.5 * d_opt
+            else:
 
-            offset = 0.0
+                offset = 0.0
 
-        for j in range(nR):
+            for j in range(nR):
 
-            rpoint = Rgrid[j] + offset
+                rpoint = Rgrid[j] + offset
 
-            point = geometry.Point(rpoint, zpoint)
+                point = geometry.Point(rpoint, zpoint)
+
+                if my_polygon.contains(point):
+                    nInside += 1
+                    rfils.append(rpoint)
+                    zfils.append(zpoint)
 
-            if my_polygon.contains(point):
-                nInside += 1
-                rfils.append(rpoint)
-                zfils.append(zpoint)
+        if nInside > 0:
+            break
 
     rfils = np.asarray(rfils)
     zfils = np.asarray(zfils)
-- 
2.43.0


From adf2d70423a047e9a549e8b726457c22e9523863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 15/72] fix: control system handles coils with the same
 response

Solving the normal equations raised LinAlgError when the responses of two
coils are (nearly) proportional, since gamma**2 is below rounding error.
---
 freegs/control.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..f811622 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -4,8 +4,8 @@ Plasma control system
 Use constraints to adjust coil currents
 """
 
-from numpy import dot, transpose, eye, array, inf
-from numpy.linalg import inv, norm
+from numpy import eye, array, inf
+from numpy.linalg import lstsq, norm
 import numpy as np
 from scipy import optimize
 from . import critical
@@ -128,11 +128,12 @@ class constrain(object):
         # First solve analytically by Tikhonov regularisation
         # minimise || Ax - b ||^2 + ||gamma x ||^2
 
+        # Include Tikhonov regularisation in the constraint matrices
+        A2 = np.concatenate([A, self.gamma * eye(ncontrols)])
+        b2 = np.concatenate([b, np.zeros(ncontrols)])
+
         # Calculate the change in coil current
-        self.current_change = dot(
-            inv(dot(transpose(A), A) + self.gamma ** 2 * eye(ncontrols)),
-            dot(transpose(A), b),
-        )
+        self.current_change = lstsq(A2, b2, rcond=None)[0]
 
         # Now use the initial analytical soln to guide constrained solve
 
@@ -155,10 +156,6 @@ class constrain(object):
 
         current_change_bnds = array(current_change_bounds)
 
-        # Reform the constraint matrices to include Tikhonov regularisation
-        A2 = np.concatenate([A, self.gamma * eye(ncontrols)])
-        b2 = np.concatenate([b, np.zeros(ncontrols)])
-
         # The objetive function to minimize
         # || A2x - b2 ||^2
         def objective(x):
-- 
2.43.0


From 5604ff3d9b65470436f07e47a634aedee0a97542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:00 +0000
Subject: [PATCH 16/72] fix: coil current limits and maximum total current are
 respected by the control system

The constrained solve was so badly scaled (currents ~1e5 A, responses ~1e-6)
that SLSQP stopped immediately or diverged: the maximum total current could be
exceeded by orders of magnitude, and the fit within current limits was not the best one.
---
 freegs/control.py | 81 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 23 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index f811622..7d5aa17 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -156,32 +156,67 @@ class constrain(object):
 
         current_change_bnds = array(current_change_bounds)
 
-        # The objetive function to minimize
-        # || A2x - b2 ||^2
-        def objective(x):
-            return (norm((A2 @ x) - b2)) ** 2
-
-        # Additional constraints on the optimisation
-        cons = []
-
-        def max_total_currents(x):
-            sum = 0.0
-            for delta, i in zip(x, tokamak.controlCurrents()):
-                sum += abs(delta + i)
-            return -(sum - self.max_total_current)
-
-        if self.max_total_current is not None:
-            con1 = {"type": "ineq", "fun": max_total_currents}
-            cons.append(con1)
+        # The currents (A) and the constraints (T, Wb) differ by many orders of
+        # magnitude, so minimise using dimensionless currents x / xscale
+        bscale = norm(b2) or 1.0
+        xscale = bscale / np.maximum(norm(A2, axis=0), 1e-30)
+        A2 = A2 * xscale / bscale
+        b2 = b2 / bscale
+
+        def minimise(A2, b2, x0, bounds, constraints):
+            """
+            Minimise the objective function || A2x - b2 ||^2
+            """
+            return optimize.minimize(
+                lambda x: norm((A2 @ x) - b2) ** 2,
+                x0,
+                jac=lambda x: 2 * A2.T @ ((A2 @ x) - b2),
+                method="SLSQP",
+                bounds=bounds,
+                constraints=constraints,
+                options={"ftol": 1e-12, "maxiter": 1000},
+            ).x
 
         # Use the analytical current change as the initial guess
         if self.current_change.shape[0] > 0:
-            x0 = self.current_change
-            sol = optimize.minimize(
-                objective, x0, method="SLSQP", bounds=current_change_bnds, constraints=cons
-            )
-
-            self.current_change = sol.x
+            x0 = self.current_change / xscale
+            bounds = current_change_bnds / xscale[:, np.newaxis]
+            x = minimise(A2, b2, x0, bounds, [])
+
+            start = array(tokamak.controlCurrents()) / xscale
+            total_current = np.sum(np.abs(x + start) * xscale)
+
+            if (
+                self.max_total_current is not None
+                and total_current > self.max_total_current
+            ):
+                # Split the currents x + start into positive and negative parts,
+                # so that the total current is a linear function of them
+                weight = np.tile(xscale / self.max_total_current, 2)
+                con1 = {
+                    "type": "ineq",
+                    "fun": lambda y: 1.0 - weight @ y,
+                    "jac": lambda y: -weight,
+                }
+                lower, upper = bounds[:, 0] + start, bounds[:, 1] + start
+                parts_bounds = np.column_stack(
+                    [
+                        np.concatenate([np.maximum(lower, 0.0), np.maximum(-upper, 0.0)]),
+                        np.concatenate([np.maximum(upper, 0.0), np.maximum(-lower, 0.0)]),
+                    ]
+                )
+                y0 = (x + start) * self.max_total_current / total_current
+                parts = minimise(
+                    np.concatenate([A2, -A2], axis=1),
+                    b2 + A2 @ start,
+                    np.concatenate([np.maximum(y0, 0.0), np.maximum(-y0, 0.0)]),
+                    parts_bounds,
+                    [con1],
+                )
+                ncontrols = len(start)
+                x = parts[:ncontrols] - parts[ncontrols:] - start
+
+            self.current_change = x * xscale
             tokamak.controlAdjust(self.current_change)
 
         # Store info for user
-- 
2.43.0


From b9719d2329ecdfd6432ac477be4252cfeadd5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:15 +0000
Subject: [PATCH 17/72] fix: ConstrainPsi2D accepts a single number for
 weights, as documented

---
 freegs/control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 7d5aa17..c609622 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -258,7 +258,8 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+        weights = np.broadcast_to(weights, np.shape(target_psi))
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
-- 
2.43.0


From 831287714a25b6236a7547aa8589d7c58bf160ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 18/72] fix: fitting 2D flux within current limits changes the
 currents

The optimiser worked with derivatives per Amp, below its tolerance, so returned
the starting currents. Also the limits and weights are optional as documented,
and a constant offset in the target is ignored as in ConstrainPsi2D.
---
 freegs/control.py | 142 +++++++++++++++++++++-------------------------
 1 file changed, 64 insertions(+), 78 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index c609622..137759f 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -355,6 +355,45 @@ class ConstrainPsiNorm2D(object):
         ).ravel()  # flatten array
 
 
+def _fit_currents(residual, start_currents, current_lims):
+    """
+    Find the currents which minimise the sum of squares of residual(currents),
+    optionally within limits [(l1,u1),(l2,u2)...(lN,uN)] on the controlled currents
+
+    Works with scaled currents, since derivatives with respect to the
+    current in Amps are so small that the optimisation doesn't start.
+    """
+    start_currents = array(start_currents, dtype=float)
+    if len(start_currents) == 0:
+        return start_currents
+
+    scale = max(np.max(np.abs(start_currents)), 1e3)
+    lower = np.full(len(start_currents), -inf)
+    upper = np.full(len(start_currents), inf)
+
+    if current_lims is not None:
+        limits = np.sort(array(current_lims, dtype=float), axis=1)
+        scale = max(scale, np.max(np.abs(limits[np.isfinite(limits)]), initial=0.0))
+        lower, upper = limits[: len(start_currents)].T
+        # Fixed currents still need a range to vary in
+        upper = np.maximum(upper, lower + 1e-9 * scale)
+
+    # The initial guess must be within the bounds supplied, and not on them
+    margin = np.minimum(0.05 * (upper - lower), scale)
+    start_currents = np.clip(start_currents, lower + margin, upper - margin)
+
+    return (
+        optimize.least_squares(
+            lambda x: residual(x * scale),
+            start_currents / scale,
+            bounds=(lower / scale, upper / scale),
+            x_scale="jac",
+            gtol=None,  # Depends on the scale of the currents
+        ).x
+        * scale
+    )
+
+
 class ConstrainPsi2DAdvanced(object):
     """
     Adjusts coil currents to minimise the square differences
@@ -383,8 +422,11 @@ class ConstrainPsi2DAdvanced(object):
         Create an instance, specifying the constraints to apply
         """
 
+        weights = np.broadcast_to(weights, np.shape(target_psi))
+
         self.current_lims = current_lims
-        self.target_psi = target_psi
+        # Remove the average so constant offsets are ignored
+        self.target_psi = target_psi - np.average(target_psi, weights=weights)
         self.weights = weights
 
     def __call__(self, eq):
@@ -393,42 +435,13 @@ class ConstrainPsi2DAdvanced(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = np.asarray(tokamak.controlCurrents())
-        ncontrols = len(start_currents)
-
-        # In order for the optimisation to work, the initial guess must be within the
-        # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
-            bnd_upper = max(self.current_lims[i])
-            bnd_lower = min(self.current_lims[i])
-            sc = start_currents[i]
-            if not (bnd_lower <= sc <= bnd_upper):
-                if sc < bnd_lower:
-                    start_currents[i] = bnd_lower
-                else:
-                    start_currents[i] = bnd_upper
-
-        current_bounds = []
-
-        for i in range(ncontrols):
-            if self.current_lims is None:
-                current_bounds.append((-inf, inf))
-            else:
-                bnd_upper = max(self.current_lims[i])
-                bnd_lower = min(self.current_lims[i])
-                current_bounds.append((bnd_lower, bnd_upper))
-
-        current_bnds = array(current_bounds)
-
-        # Least squares optimisation of difference in target v achieved normalised psi
+        # Least squares optimisation of difference in target v achieved psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psi_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        end_currents = _fit_currents(
+            lambda currents: self._psi_residual(currents, eq),
+            tokamak.controlCurrents(),
+            self.current_lims,
+        )
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -441,15 +454,16 @@ class ConstrainPsi2DAdvanced(object):
         Sum of the squares of the differences between the achieved
         psi and the target psi.
         """
+        diff = self._psi_residual(currents, eq)
+        return np.sum(diff * diff)
+
+    def _psi_residual(self, currents, eq):
         eq.getMachine().setControlCurrents(currents)
         psi = eq.psi()
         eq._updateBoundaryPsi(psi)
 
         psi_av = np.average(psi, weights=self.weights)
-        diff = (psi - psi_av - self.target_psi) * self.weights
-        sum_square_diff = np.sum(diff * diff)
-
-        return sum_square_diff
+        return ((psi - psi_av - self.target_psi) * self.weights).ravel()
 
 
 class ConstrainPsiNorm2DAdvanced(object):
@@ -488,42 +502,13 @@ class ConstrainPsiNorm2DAdvanced(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = np.asarray(tokamak.controlCurrents())
-        ncontrols = len(start_currents)
-
-        # In order for the optimisation to work, the initial guess must be within the
-        # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
-        for i in range(ncontrols):
-            bnd_upper = max(self.current_lims[i])
-            bnd_lower = min(self.current_lims[i])
-            sc = start_currents[i]
-            if not (bnd_lower <= sc <= bnd_upper):
-                if sc < bnd_lower:
-                    start_currents[i] = bnd_lower
-                else:
-                    start_currents[i] = bnd_upper
-
-        current_bounds = []
-
-        for i in range(ncontrols):
-            if self.current_lims is None:
-                current_bounds.append((-inf, inf))
-            else:
-                bnd_upper = max(self.current_lims[i])
-                bnd_lower = min(self.current_lims[i])
-                current_bounds.append((bnd_lower, bnd_upper))
-
-        current_bnds = array(current_bounds)
-
         # Least squares optimisation of difference in target v achieved normalised psi
         # applied with bounds on coil currents
-        end_currents = optimize.minimize(
-            self.psinorm_difference,
-            start_currents,
-            method="L-BFGS-B",
-            bounds=current_bnds,
-            args=(eq,),
-        ).x
+        end_currents = _fit_currents(
+            lambda currents: self._psinorm_residual(currents, eq),
+            tokamak.controlCurrents(),
+            self.current_lims,
+        )
 
         # Set the latest coil currents
         tokamak.setControlCurrents(end_currents)
@@ -536,6 +521,10 @@ class ConstrainPsiNorm2DAdvanced(object):
         Sum of the squares of the differences between the achieved normalised
         psi and the target normalised psi.
         """
+        diff = self._psinorm_residual(currents, eq)
+        return np.sum(diff * diff)
+
+    def _psinorm_residual(self, currents, eq):
         eq.getMachine().setControlCurrents(currents)
         psi = eq.psi()
 
@@ -547,7 +536,4 @@ class ConstrainPsiNorm2DAdvanced(object):
         # 0 = magnetic axis
         # 1 = plasma boundary
         psi_norm = (psi - psi_axis) / (psi_bndry - psi_axis)
-        diff = (psi_norm - self.target_psinorm) * self.weights
-        sum_square_diff = np.sum(diff * diff)
-
-        return sum_square_diff
+        return ((psi_norm - self.target_psinorm) * self.weights).ravel()
-- 
2.43.0


From e10d2da6002844f9e33c45b4fc75f55b795de788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:19 +0000
Subject: [PATCH 19/72] fix: fitting 2D flux starting from zero currents finds
 the best currents

---
 freegs/control.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 137759f..6e9d0de 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -274,11 +274,15 @@ class ConstrainPsi2D(object):
         tokamak = eq.getMachine()
         start_currents = tokamak.controlCurrents()
 
+        # Work in units close to the size of the currents, so that
+        # derivatives are accurate also when the starting currents are zero
+        scale = max(np.max(np.abs(start_currents), initial=0.0), 1e3)
+
         end_currents, _ = optimize.leastsq(
-            self.psi_difference, start_currents, args=(eq,)
+            lambda x: self.psi_difference(x * scale, eq), array(start_currents) / scale
         )
 
-        tokamak.setControlCurrents(end_currents)
+        tokamak.setControlCurrents(end_currents * scale)
 
         # Ensure that the last constraint used is set in the Equilibrium
         eq._constraints = self
@@ -324,11 +328,16 @@ class ConstrainPsiNorm2D(object):
         tokamak = eq.getMachine()
         start_currents = tokamak.controlCurrents()
 
+        # Work in units close to the size of the currents, so that
+        # derivatives are accurate also when the starting currents are zero
+        scale = max(np.max(np.abs(start_currents), initial=0.0), 1e3)
+
         end_currents, _ = optimize.leastsq(
-            self.psinorm_difference, start_currents, args=(eq,)
+            lambda x: self.psinorm_difference(x * scale, eq),
+            array(start_currents) / scale,
         )
 
-        tokamak.setControlCurrents(end_currents)
+        tokamak.setControlCurrents(end_currents * scale)
 
         # Ensure that the last constraint used is set in the Equilibrium
         eq._constraints = self
-- 
2.43.0


From 3449a7cb8eee95cdacad16d8bdc00320ebf75286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 20/72] fix: iterative solver doesn't modify the initial guess

With the von Hagenow boundary the plasma psi was overwritten by the solution of
a different problem, which was then used as starting point of the solve.
---
 freegs/multigrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..cc25c6d 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -73,7 +73,8 @@ class MGJacobi:
         """
 
         # Need to reshape x and b into 1D arrays
-        x = reshape(xi, -1)
+        # Note: x is modified below, so copy to leave the initial guess unchanged
+        x = reshape(xi, -1).copy()
         b = reshape(bi, -1)
 
         if ncycle is None:
-- 
2.43.0


From fb88406ad14c3191f9eac13dc4c44e6c8dd9a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:10 +0000
Subject: [PATCH 21/72] fix: find_critical doesn't fail if a Newton iteration
 has a singular Jacobian

---
 freegs/critical.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..34e5972 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -149,7 +149,12 @@ def find_critical(R, Z, psi, discard_xpoints=True):
                     J[1, 0] = -Bz / R1 + f(R1, Z1, dx=2) / R1
                     J[1, 1] = f(R1, Z1, dx=1, dy=1)[0][0] / R1
 
-                    d = dot(inv(J), [Br, Bz])
+                    try:
+                        d = dot(inv(J), [Br, Bz])
+                    except np.linalg.LinAlgError:
+                        # Singular Jacobian, so the iteration can't continue
+                        # e.g. outside the domain where the spline is flat
+                        break
 
                     R1 = R1 - d[0]
                     Z1 = Z1 - d[1]
-- 
2.43.0


From ea741193abb3025822aabd4660cd182db3146e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:39 +0000
Subject: [PATCH 22/72] fix: find_critical finds O- and X-points half way
 between grid points

---
 freegs/critical.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 34e5972..37bbf4d 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -87,14 +87,16 @@ def find_critical(R, Z, psi, discard_xpoints=True):
     nx, ny = Bp2.shape
     for i in range(2, nx - 2):
         for j in range(2, ny - 2):
+            # Note: Equal on one side, so that a critical point half way
+            # between grid points is found once
             if (
-                (Bp2[i, j] < Bp2[i + 1, j + 1])
-                and (Bp2[i, j] < Bp2[i + 1, j])
-                and (Bp2[i, j] < Bp2[i + 1, j - 1])
+                (Bp2[i, j] <= Bp2[i + 1, j + 1])
+                and (Bp2[i, j] <= Bp2[i + 1, j])
+                and (Bp2[i, j] <= Bp2[i + 1, j - 1])
                 and (Bp2[i, j] < Bp2[i - 1, j + 1])
                 and (Bp2[i, j] < Bp2[i - 1, j])
                 and (Bp2[i, j] < Bp2[i - 1, j - 1])
-                and (Bp2[i, j] < Bp2[i, j + 1])
+                and (Bp2[i, j] <= Bp2[i, j + 1])
                 and (Bp2[i, j] < Bp2[i, j - 1])
             ):
 
-- 
2.43.0


From 09f6e32b276995b5d382b6c3c19b33496e59a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 23/72] fix: ConstrainBetapIp includes the pressure at grid
 points on the magnetic axis

---
 freegs/jtor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..ec29ceb 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -234,8 +234,9 @@ class ConstrainBetapIp(Profile):
         pfunc = zeros((nx, ny))
         for i in range(1, nx - 1):
             for j in range(1, ny - 1):
-                if (psi_norm[i, j] >= 0.0) and (psi_norm[i, j] < 1.0):
-                    pfunc[i, j] = pshape(psi_norm[i, j])
+                if psi_norm[i, j] < 1.0:
+                    # Note: May be slightly negative close to the axis
+                    pfunc[i, j] = pshape(max(psi_norm[i, j], 0.0))
         if mask is not None:
             pfunc *= mask
 
-- 
2.43.0


From 5a57a19174be63d5f9262441484a925d49db427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:11 +0000
Subject: [PATCH 24/72] fix: f = R*Bt in the plasma has the sign of the vacuum
 field

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index ec29ceb..32d7469 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -85,7 +85,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the same sign as fvac
+            return np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -105,7 +106,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the same sign as fvac
+            ovals[i] = np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From 8b85ca25c1283eeb3ed0e67de8bde5af54bbac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:19 +0000
Subject: [PATCH 25/72] fix: ConstrainPaxisIp and ConstrainBetapIp use the
 boundary flux they are given

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 32d7469..278ab99 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -183,7 +183,8 @@ class ConstrainBetapIp(Profile):
         # Intermediary update of the plasma
         # boundary and axis flux
         self.eq._updateBoundaryPsi(psi)
-        psi_bndry = self.eq.psi_bndry
+        if psi_bndry is None or self.eq.check_limited:
+            psi_bndry = self.eq.psi_bndry
 
         # Analyse the equilibrium, finding O- and X-points
         opt, xpt = critical.find_critical(R, Z, psi)
@@ -346,7 +347,8 @@ class ConstrainPaxisIp(Profile):
         # Intermediary update of the plasma
         # boundary and axis flux
         self.eq._updateBoundaryPsi(psi)
-        psi_bndry = self.eq.psi_bndry
+        if psi_bndry is None or self.eq.check_limited:
+            psi_bndry = self.eq.psi_bndry
 
         # Analyse the equilibrium, finding O- and X-points
         opt, xpt = critical.find_critical(R, Z, psi)
-- 
2.43.0


From 6edbc3df490b8284c73b23ade2a59dbcafc216eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:06 +0000
Subject: [PATCH 26/72] fix: flux at the limiter points uses the right
 orientation of the grid

The flux array is indexed [R, Z], as RectBivariateSpline expects. Transposing it
gave the flux of the wrong points, and failed if nx and ny differ.
---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..1155fe7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From ebbca4bdd742f34201d4882faf0fadd903486e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:50 +0000
Subject: [PATCH 27/72] fix: limited plasmas with negative plasma current

The flux has a minimum at the magnetic axis if the plasma current is negative,
so the plasma touches the wall where the flux is closest to that on the axis,
which is then not the maximum.
---
 freegs/equilibrium.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1155fe7..9e478e5 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -565,14 +565,15 @@ class Equilibrium:
                 for i in range(len(Rlimit)):
                     psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Get index of maximum psi value
-                indMax = np.argmax(psi_limit_points)
+                # Get index of the psi value closest to the magnetic axis
+                # (the maximum or minimum, depending on the sign of the current)
+                indMax = np.argmin(abs(psi_limit_points - self.psi_axis))
 
                 # Extract R,Z of the contact point
                 self.Rlim = Rlimit[indMax]
                 self.Zlim = Zlimit[indMax]
 
-                # Obtain maximum psi
+                # Obtain psi at the contact point
                 self.psi_limit = psi_limit_points[indMax]
 
                 # Check if any xpoints are present
@@ -581,13 +582,15 @@ class Equilibrium:
                     self.psi_xpt = xpt[0][2]
 
                     # Choose between diverted or limited flux
-                    self.psi_bndry = max(self.psi_xpt, self.psi_limit)
+                    self.is_limited = abs(self.psi_limit - self.psi_axis) <= abs(
+                        self.psi_xpt - self.psi_axis
+                    )
 
-                    if self.psi_bndry == self.psi_limit:
-                        self.is_limited = True
+                    if self.is_limited:
+                        self.psi_bndry = self.psi_limit
 
                     else:
-                        self.is_limited = False
+                        self.psi_bndry = self.psi_xpt
 
                     # Mask the core
                     self.mask = critical.core_mask(
-- 
2.43.0


From b5a3c3e7b36959138d6fcc1127257958a16002c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:50 +0000
Subject: [PATCH 28/72] fix: core of a limited plasma without X-points is
 inside the wall

The mask was None, which means that all of the domain is in the core, although
the profiles' current is masked. Volume, beta etc. were then wrong, and Btor failed.
---
 freegs/equilibrium.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 9e478e5..6aec997 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -592,21 +592,20 @@ class Equilibrium:
                     else:
                         self.psi_bndry = self.psi_xpt
 
-                    # Mask the core
-                    self.mask = critical.core_mask(
-                        self.R, self.Z, psi, opt, xpt, self.psi_bndry
-                    )
-
-                    # Use interpolation to find if a point is in the core.
-                    self.mask_func = interpolate.RectBivariateSpline(
-                        self.R[:, 0], self.Z[0, :], self.mask
-                    )
-
                 else:
                     # No xpoints, therefore psi_bndry = psi_limit
                     self.psi_bndry = self.psi_limit
                     self.is_limited = True
-                    self.mask = None
+
+                # Mask the core
+                self.mask = critical.core_mask(
+                    self.R, self.Z, psi, opt, xpt, self.psi_bndry
+                )
+
+                # Use interpolation to find if a point is in the core.
+                self.mask_func = interpolate.RectBivariateSpline(
+                    self.R[:, 0], self.Z[0, :], self.mask
+                )
 
             else:
                 # Either a wall was not provided or the user did not wish to
-- 
2.43.0


From b6c0706a74e2d8bc7f68176405bec9524c97b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:50 +0000
Subject: [PATCH 29/72] fix: limiter points cover all of the wall

The segment which closes the wall, from its last to its first point, was missing.
---
 freegs/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index 3374c25..ca57f8d 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -690,6 +690,9 @@ class Machine:
         # Make an interpolator for point location as function of normalised distance
         # along the wall
         points = np.array([self.wall.R, self.wall.Z]).T
+        if not np.array_equal(points[0], points[-1]):
+            # Last point connects to the first
+            points = np.append(points, points[:1], axis=0)
         distance = np.cumsum(np.sqrt(np.sum(np.diff(points, axis=0) ** 2, axis=1)))
         distance = np.insert(distance, 0, 0) / distance[-1]
 
-- 
2.43.0


From 5ed80ddcd5c3ed4b8fd912ecd3150177caa4009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:32 +0000
Subject: [PATCH 30/72] fix: limiter points follow the wall when it is replaced

They were only calculated when the machine was created, so checking for limited
plasmas failed after reading a wall from a GEQDSK file, and used the old wall
after assigning another.
---
 freegs/machine.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index ca57f8d..b036294 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -649,16 +649,27 @@ class Machine:
         """
 
         self.coils = coils
+        self._nlimit = nlimit
         self.wall = wall
         self.sensors = sensors
         self.R0 = R0
 
+    @property
+    def wall(self):
+        """
+        The wall (limiter) of the machine, or None
+        """
+        return self._wall
+
+    @wall.setter
+    def wall(self, wall):
+        self._wall = wall
         self.limit_points_R = None
         self.limit_points_Z = None
 
-        if self.wall is not None:
+        if wall is not None:
             self.limit_points_R, self.limit_points_Z = self.generate_limit_points(
-                nlimit
+                self._nlimit
             )
 
     def __repr__(self):
-- 
2.43.0


From 80c190b48ebc6c80ed76d8e4407bee81523e8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:03 +0000
Subject: [PATCH 31/72] fix: find_separatrix works without X-points

A limited plasma needn't have an X-point in the domain.
---
 freegs/critical.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 37bbf4d..e1d40e3 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -420,16 +420,22 @@ def find_separatrix(
     theta_grid = linspace(0, 2 * pi, ntheta, endpoint=False)
     dtheta = theta_grid[1] - theta_grid[0]
 
-    # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
-    xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
-        xpoint_theta < 0
-    )  # let's make it between 0 and 2*pi
-    # How close in theta to allow theta grid points to the X-point
-    TOLERANCE = 1.0e-3
-    if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
-        warn("Theta grid too close to X-point, shifting by half-step")
-        theta_grid += dtheta / 2
+    if xpoint:
+        r_xpt, z_xpt = xpoint[0][0:2]
+
+        # Avoid putting theta grid points exactly on the X-points
+        xpoint_theta = arctan2(r_xpt - r0, z_xpt - z0)
+        xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
+            xpoint_theta < 0
+        )  # let's make it between 0 and 2*pi
+        # How close in theta to allow theta grid points to the X-point
+        TOLERANCE = 1.0e-3
+        if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
+            warn("Theta grid too close to X-point, shifting by half-step")
+            theta_grid += dtheta / 2
+    else:
+        # No X-points e.g. a limited plasma
+        r_xpt, z_xpt = np.nan, np.nan
 
     isoflux = []
     for theta in theta_grid:
@@ -444,7 +450,7 @@ def find_separatrix(
             axis=axis,
             n=1000,
         )
-        isoflux.append((r, z, xpoint[0][0], xpoint[0][1]))
+        isoflux.append((r, z, r_xpt, z_xpt))
 
     return isoflux
 
-- 
2.43.0


From 7e2e860c19de63b2ddb2ff18447edee52c3e7538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:03 +0000
Subject: [PATCH 32/72] fix: safety factor of limited plasmas

Normalised flux is 1 at the plasma boundary, which need not be at the X-point.
---
 freegs/critical.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index e1d40e3..0b9070f 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -479,11 +479,15 @@ def find_safety(
     if (opoint is None) or (xpoint is None):
         opoint, xpoint = find_critical(eq.R, eq.Z, psi)
 
-    if (xpoint is None) or (len(xpoint) == 0):
+    if eq.psi_bndry is not None:
+        psi_bndry = eq.psi_bndry
+    elif (xpoint is None) or (len(xpoint) == 0):
         # No X-point
         raise ValueError("No X-point so no separatrix")
     else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+        psi_bndry = xpoint[0][2]
+
+    psinormal = (psi - opoint[0][2]) / (psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
@@ -492,17 +496,18 @@ def find_safety(
     theta_grid = linspace(0, 2 * pi, ntheta, endpoint=False)
     dtheta = theta_grid[1] - theta_grid[0]
 
-    # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
-    xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
-        xpoint_theta < 0
-    )  # let's make it between 0 and 2*pi
-    # How close in theta to allow theta grid points to the X-point
-    TOLERANCE = 1.0e-3
-
-    if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
-        warn("Theta grid too close to X-point, shifting by half-step")
-        theta_grid += dtheta / 2
+    if xpoint:
+        # Avoid putting theta grid points exactly on the X-points
+        xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+        xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
+            xpoint_theta < 0
+        )  # let's make it between 0 and 2*pi
+        # How close in theta to allow theta grid points to the X-point
+        TOLERANCE = 1.0e-3
+
+        if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
+            warn("Theta grid too close to X-point, shifting by half-step")
+            theta_grid += dtheta / 2
 
     if psinorm is None:
         npsi = 100
-- 
2.43.0


From dcff9ace405310302f09a1fb4634d74ee09d9c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:03 +0000
Subject: [PATCH 33/72] fix: safety factor can be calculated for a list of flux
 values

As shown in the documentation of Equilibrium.q
---
 freegs/equilibrium.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6aec997..2125b96 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -359,7 +359,9 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        psinorm = np.atleast_1d(psinorm)
+
+        if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
-- 
2.43.0


From 9e53b21f627288148a637517fd6798ab8183ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:42 +0000
Subject: [PATCH 34/72] fix: plasma is diverted if none of the wall is next to
 it

Only wall points nearer to the midplane than the X-point are considered. If
there are none, checking for a limited plasma failed.
---
 freegs/equilibrium.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 2125b96..ba123ac 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -556,27 +556,31 @@ class Equilibrium:
                     Rlimit = Rlimit[limit_args]
                     Zlimit = Zlimit[limit_args]
 
-                # Obtain the flux psi at these limiter points
-                R = np.asarray(self.R[:, 0])
-                Z = np.asarray(self.Z[0, :])
+                # Flux at the contact point, if there is wall next to the plasma
+                self.psi_limit = None
 
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
+                if len(Rlimit) > 0:
+                    # Obtain the flux psi at these limiter points
+                    R = np.asarray(self.R[:, 0])
+                    Z = np.asarray(self.Z[0, :])
 
-                # Get psi at the limit points
-                psi_limit_points = np.zeros(len(Rlimit))
-                for i in range(len(Rlimit)):
-                    psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
+                    psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
-                # Get index of the psi value closest to the magnetic axis
-                # (the maximum or minimum, depending on the sign of the current)
-                indMax = np.argmin(abs(psi_limit_points - self.psi_axis))
+                    # Get psi at the limit points
+                    psi_limit_points = np.zeros(len(Rlimit))
+                    for i in range(len(Rlimit)):
+                        psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Extract R,Z of the contact point
-                self.Rlim = Rlimit[indMax]
-                self.Zlim = Zlimit[indMax]
+                    # Get index of the psi value closest to the magnetic axis
+                    # (the maximum or minimum, depending on the sign of the current)
+                    indMax = np.argmin(abs(psi_limit_points - self.psi_axis))
 
-                # Obtain psi at the contact point
-                self.psi_limit = psi_limit_points[indMax]
+                    # Extract R,Z of the contact point
+                    self.Rlim = Rlimit[indMax]
+                    self.Zlim = Zlimit[indMax]
+
+                    # Obtain psi at the contact point
+                    self.psi_limit = psi_limit_points[indMax]
 
                 # Check if any xpoints are present
                 if xpt:
@@ -584,9 +588,9 @@ class Equilibrium:
                     self.psi_xpt = xpt[0][2]
 
                     # Choose between diverted or limited flux
-                    self.is_limited = abs(self.psi_limit - self.psi_axis) <= abs(
-                        self.psi_xpt - self.psi_axis
-                    )
+                    self.is_limited = self.psi_limit is not None and abs(
+                        self.psi_limit - self.psi_axis
+                    ) <= abs(self.psi_xpt - self.psi_axis)
 
                     if self.is_limited:
                         self.psi_bndry = self.psi_limit
-- 
2.43.0


From df5c9b335e6bf550dbc23cbb2ac8e6820ec3d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 35/72] fix: shafranovShift uses the number of points it is
 given

---
 freegs/equilibrium.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index ba123ac..684d908 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -984,8 +984,8 @@ class Equilibrium:
         Rmag = self.Rmagnetic()
         Zmag = self.Zmagnetic()
 
-        Rgeo = self.Rgeometric()
-        z0 = self.Zgeometric()
+        Rgeo = self.Rgeometric(npoints=npoints)
+        z0 = self.Zgeometric(npoints=npoints)
 
         return np.array([Rmag - Rgeo, Zmag - z0])
 
-- 
2.43.0


From c1988e28c8318c83cd5fbde5b8a239bc9cf19959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:19 +0000
Subject: [PATCH 36/72] fix: points on the separatrix close to an X-point

If no point along a line is outside of the surface then the magnetic axis was
returned, as a point on the separatrix.
---
 freegs/critical.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 0b9070f..80cab5f 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -365,7 +365,13 @@ def find_psisurface(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
         # Only one value
         ind = argmax(pnorm > psival)
 
-        if ind == 0:
+        if not np.any(pnorm > psival):
+            # Surface not reached, for example because the line passes through
+            # an X-point, or ends on the surface. Use the closest to it.
+            ind = argmax(pnorm)
+            r = r[ind]
+            z = z[ind]
+        elif ind == 0:
             # If the point is very close to the magnetic axis, don't
             # try to do extrapolation.
             r = r[ind]
-- 
2.43.0


From be0107c8b6d3f6070926a733421b3e70cb017f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:30 +0000
Subject: [PATCH 37/72] fix: toroidal flux is measured from the magnetic axis

tor_flux started from the first value of psi rather than the axis, and
failed for a single value. rhotor was NaN if either the plasma current or the
toroidal field is negative, because the flux at the LCFS is then the minimum.
---
 freegs/equilibrium.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 684d908..04139b6 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -382,16 +382,25 @@ class Equilibrium:
         Calculates toroidal flux at specified values of poloidal flux.
         >>> q = drho/dpsi
         """
-        psiN = (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis)
-        # Get safety factor of these flux surfaces
+        # Get safety factor of flux surfaces from magnetic axis to LCFS
+        psiN = np.linspace(0.0, 1.0, 101, endpoint=True)
+        psivals = self.psi_axis + psiN * (self.psi_bndry - self.psi_axis)
         qvals = self.q(psiN)
 
         # Integrate q wrt psi to get rho. rho = 0 @ psiN = 0
-        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-1.0 / (2.0 * np.pi))
+        torflux = cumulative_trapezoid(qvals, psivals, initial=0.0) * (
+            -1.0 / (2.0 * np.pi)
+        )
+
+        result = np.interp(
+            (np.asarray(psi) - self.psi_axis) / (self.psi_bndry - self.psi_axis),
+            psiN,
+            torflux,
+        )
 
         # Convert to a scalar if only one result
-        if len(result) == 1:
-            return result[0]
+        if np.size(result) == 1:
+            return float(np.ravel(result)[0])
         return result
 
     def rhotor(self, psi=None):
@@ -404,18 +413,7 @@ class Equilibrium:
         Maximum toroidal flux shoud be at LCFS.
         """
 
-        torflux = self.tor_flux(psi)
-
-        psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
-        torflux_for_LCFS = self.tor_flux(psi)
-
-        max_torflux = np.max(torflux_for_LCFS)
-
-        result = np.sqrt(torflux / max_torflux)
-
-        if len(result) == 1:
-            return result[0]
-        return result
+        return np.sqrt(self.tor_flux(psi) / self.tor_flux(self.psi_bndry))
 
     def pprime(self, psinorm):
         """
-- 
2.43.0


From 61218f3e8ae732e382773f382549b1beab9aac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:24 +0000
Subject: [PATCH 38/72] fix: order of the operators is stored in HDF5 files

---
 freegs/dump.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index 22294e5..537e31d 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -164,6 +164,7 @@ class OutputFile(object):
         equilibrium_group.create_dataset(
             "boundary_function", data=equilibrium._applyBoundary.__name__
         )
+        equilibrium_group.create_dataset("order", data=equilibrium.order)
 
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
 
@@ -241,6 +242,9 @@ class OutputFile(object):
 
         eq_boundary_func = boundary.__dict__[eq_boundary_name]
 
+        # Not in files written by older versions
+        order = int(equilibrium_group["order"][()]) if "order" in equilibrium_group else 4
+
         equilibrium = Equilibrium(
             tokamak=tokamak,
             Rmin=Rmin,
@@ -252,6 +256,7 @@ class OutputFile(object):
             psi=plasma_psi,
             current=current,
             boundary=eq_boundary_func,
+            order=order,
         )
 
         return equilibrium
-- 
2.43.0


From c4a8259e29367605d4a78fe5d1f3f90ad8c2197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 39/72] fix: GEQDSK files can be read with recent versions of
 freeqdsk

---
 freegs/geqdsk.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..c368328 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -247,9 +247,15 @@ def read(
     data = geqdsk.read(fh, cocos=cocos)
 
     # If data contains a limiter, set the machine wall
-    if "rlim" in data:
-        if len(data["rlim"]) > 3:
-            machine.wall = Wall(data["rlim"], data["zlim"])
+    # Note: Depending on the version of freeqdsk, if there is no limiter
+    # then "rlim" is either missing or None
+    try:
+        rlim, zlim = data["rlim"], data["zlim"]
+    except KeyError:
+        rlim = None
+    if rlim is not None:
+        if len(rlim) >= 3:
+            machine.wall = Wall(rlim, zlim)
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From 8fd9cd10fb7ee4be077ce0aa7cf5024df12aa153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:14 +0000
Subject: [PATCH 40/72] fix: profiles in GEQDSK files are written on a grid
 which includes the plasma boundary

---
 freegs/geqdsk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index c368328..a77f8cd 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,8 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    # Uniform grid in poloidal flux, from the axis to the plasma boundary
+    psinorm = linspace(0.0, 1.0, nx, endpoint=True)
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
-- 
2.43.0


From 836edc6c15f8afe30f340f8577ba9d86fa601bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 41/72] fix: GEQDSK files can be read into a machine which
 already has coil currents

---
 freegs/geqdsk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index a77f8cd..74cb60f 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -357,8 +357,9 @@ def read(
         nx=nx,
         ny=ny,  # Number of grid points
         check_limited=True,
-        psi=psi,
     )
+    # The input is the total flux, including any current there is in the coils
+    eq._updatePlasmaPsi(psi - machine.psi(eq.R, eq.Z))
     # Grid spacing
     dR = eq.R[1, 0] - eq.R[0, 0]
     dZ = eq.Z[0, 1] - eq.Z[0, 0]
-- 
2.43.0


From 2bd2f0332cb849f7a9a85efa2730d85333d149bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:08 +0000
Subject: [PATCH 42/72] fix: GEQDSK files can be read onto a different domain

---
 freegs/geqdsk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 74cb60f..be9e324 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -380,6 +380,7 @@ def read(
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
         # Calculate approximate grid size needed to keep current resolution
+        newnx, newny = nx, ny
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
             newnx = int(ceilPow2(fnewnx - 1)) + 1
@@ -402,8 +403,8 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
         )
 
@@ -411,6 +412,7 @@ def read(
         Jtor = Jtor_func(eq.R, eq.Z, grid=False)
         psi = psi_func(eq.R, eq.Z, grid=False)
 
+        eq._updatePlasmaPsi(psi - machine.psi(eq.R, eq.Z))
         psi_bndry = eq.psi_bndry
         psi_axis = eq.psi_axis
         mask = eq.mask
-- 
2.43.0


From 1365426f789df2db4bdba1381c65b06fb817aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 43/72] fix: GEQDSK data read with recent versions of freeqdsk
 can be written to DivGeo files

---
 freegs/_divgeo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freegs/_divgeo.py b/freegs/_divgeo.py
index 6762c1b..126ab70 100644
--- a/freegs/_divgeo.py
+++ b/freegs/_divgeo.py
@@ -19,6 +19,8 @@ You should have received a copy of the GNU Lesser General Public License
 along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 
 """
+import dataclasses
+
 import numpy as np
 
 from freeqdsk._fileutils import ChunkOutput, write_1d, write_2d
@@ -48,6 +50,10 @@ def write(data, fh, label=None):
 
     """
 
+    # Recent versions of freeqdsk return a dataclass
+    if dataclasses.is_dataclass(data):
+        data = dataclasses.asdict(data)
+
     # Write header
     fh.write(
         """    jm   :=  no. of grid points in radial direction;
-- 
2.43.0


From f05671a0828f9aad05f98b54738e0dda58ba370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:12 +0000
Subject: [PATCH 44/72] fix: O- and X-points are found when a GEQDSK file isn't
 on a grid of 2^n+1 points

---
 freegs/geqdsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index be9e324..d9834cf 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -271,7 +271,7 @@ def read(
 
         rin = linspace(0, 1, nx)
         zin = linspace(0, 1, ny)
-        psi_interp = interpolate.RectBivariateSpline(rin, zin, psi, kx=1, ky=1)
+        psi_interp = interpolate.RectBivariateSpline(rin, zin, psi)
 
         # Ensure that newnx, newny is 2^n + 1
         nx = ceilPow2(nx - 1) + 1
-- 
2.43.0


From 9f1b84b7e9e36071a4e7e9a95d6da7b4e4c34734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 45/72] fix: RogowskiSensor measures the current in all turns
 of a coil

---
 freegs/coil.py          | 5 ++++-
 freegs/filament_coil.py | 2 +-
 freegs/shaped_coil.py   | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..0016132 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -208,8 +208,11 @@ class Coil:
         )  # Jphi x Br = - Fz
 
     def inShape(self, polygon):
+        """
+        Number of turns inside the polygon
+        """
         if polygon.contains(Point(self.R, self.Z)):
-            return 1
+            return self.turns
         else:
             return 0
 
diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1a3c97b..50860b4 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -315,7 +315,7 @@ class FilamentCoil(Coil):
         for r, z in self.points:
             if polygon.contains(geometry.Point(r, z)):
                 counter += 1 / self.npoints
-        return counter
+        return counter * self.turns
 
     def __repr__(self):
         return "FilamentCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index f5a56a3..c727a48 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -126,7 +126,7 @@ class ShapedCoil(Coil):
 
     def inShape(self,polygon):
         Shaped_Coil = Polygon([shape for shape in self.shape])
-        return (polygon.intersection(Shaped_Coil).area) / (self._area)
+        return self.turns * (polygon.intersection(Shaped_Coil).area) / (self._area)
 
     def __repr__(self):
         return "ShapedCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From 0b720c103609754f33caa3139c9316a871c0d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 46/72] fix: RogowskiSensor measures the current in MultiCoils
 and Solenoids

---
 freegs/machine.py    | 10 ++++++++++
 freegs/multi_coil.py | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index b036294..fdd7947 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -425,6 +425,16 @@ class Solenoid:
         """
         return {}
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the polygon
+        """
+        return sum(
+            1
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+            if polygon.contains(Point(self.Rs, Zs))
+        )
+
     def __repr__(self):
         return "Solenoid(Rs={0}, Zsmin={1}, Zsmax={2}, current={3}, Ns={4}, control={5})".format(
             self.Rs, self.Zsmin, self.Zsmax, self.current, self.Ns, self.control
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 58cb69f..933a94f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -23,6 +23,8 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
 import numpy as np
+from shapely.geometry import Point
+
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 
@@ -193,6 +195,18 @@ class MultiCoil(Coil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
         return result * self._turns_per_filament()
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the polygon, including their polarity
+        """
+        counter = 0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                counter += self.polarity[0]
+            if self.mirror and polygon.contains(Point(R_fil, -Z_fil)):
+                counter += self.polarity[1]
+        return counter * self._turns_per_filament()
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From af62b0e3917ecda152a8cbedfdc4aecbf211baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 47/72] fix: sensors which are off can be printed

---
 freegs/machine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index fdd7947..a59d305 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -509,9 +509,7 @@ class Sensor:
         self.status = status
         self.name = name
         self.weight = weight
-
-        if self.status:
-            self.measurement = measurement
+        self.measurement = measurement
 
 
     def __repr__(self):
-- 
2.43.0


From 1f5e7e5a46dbf79c6c90ee065a1cf38078264fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 48/72] fix: measurements can be taken of a machine without
 sensors

---
 freegs/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index a59d305..f03e8ea 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -659,7 +659,7 @@ class Machine:
         self.coils = coils
         self._nlimit = nlimit
         self.wall = wall
-        self.sensors = sensors
+        self.sensors = [] if sensors is None else sensors
         self.R0 = R0
 
     @property
-- 
2.43.0


From e038fb055ef7a0317a852324acf98fb944e82ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 49/72] fix: force on a coil without current is zero

---
 freegs/coil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/coil.py b/freegs/coil.py
index 0016132..cc436e9 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -184,6 +184,10 @@ class Coil:
         Bz = equilibrium.Bz(self.R, self.Z)
         self.current = current
 
+        if total_current == 0.0:
+            # No force, and the area might be zero
+            return np.zeros(2)
+
         # Assume circular cross-section for hoop (self) force
         minor_radius = np.sqrt(self.area / np.pi)
 
-- 
2.43.0


From af54538c398d696230bbccadf28c9012394451ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 50/72] fix: forces on coils in circuits don't include the
 field of the coil itself

---
 freegs/machine.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index f03e8ea..6af8709 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -207,8 +207,16 @@ class Circuit:
         Returns a dictionary of coil label -> force
         """
         forces = {}
-        for label, coil, multiplier in self.coils:
-            forces[label] = coil.getForces(equilibrium)
+        coils = self.coils
+        for index, (label, coil, multiplier) in enumerate(coils):
+            # The field at the coil is due to all other coils and plasma, so
+            # this circuit must not drive the coil while calculating its force
+            self.coils = list(coils)
+            self.coils[index] = (label, coil, 0.0)
+            try:
+                forces[label] = coil.getForces(equilibrium)
+            finally:
+                self.coils = coils
         return forces
 
     def inShape(self, polygon):
-- 
2.43.0


From a5ad5e2eff0fef2c3dabc134ea490463ad447867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 51/72] fix: newDomain keeps the resolution in Z

---
 freegs/equilibrium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 04139b6..34f1810 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1358,7 +1358,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-- 
2.43.0


From 4683ba9bb2badba95a07241e01957d0c1253cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 52/72] fix: coarsen keeps the flux on the edges of the domain

---
 freegs/equilibrium.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 34f1810..0df90f8 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1320,6 +1320,10 @@ def coarsen(eq):
     """
     plasma_psi = multigrid.restrict(eq.plasma_psi)
     nx, ny = plasma_psi.shape
+    if plasma_psi.shape != eq.plasma_psi.shape:
+        # The edges of the domain aren't set by restrict
+        plasma_psi[[0, -1], :] = eq.plasma_psi[[0, -1], ::2]
+        plasma_psi[:, [0, -1]] = eq.plasma_psi[::2, [0, -1]]
 
     result = Equilibrium(
         tokamak=eq.tokamak,
-- 
2.43.0


From e6ab30caefb3aef6981f8736ab439e28c2b75337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 53/72] fix: coarsen and newDomain keep the boundary condition
 and the order of the operators

---
 freegs/equilibrium.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 0df90f8..5cbfcda 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1331,6 +1331,8 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
         nx=nx,
         ny=ny,
     )
@@ -1366,7 +1368,15 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        nx=nx,
+        ny=ny,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From cc4d52c83f149c6127b80b077f4d79ab02e391fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 54/72] fix: refine, coarsen and newDomain keep checking
 whether the plasma is limited

---
 freegs/equilibrium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 5cbfcda..6d52baa 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1297,6 +1297,7 @@ def refine(eq, nx=None, ny=None):
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1333,6 +1334,7 @@ def coarsen(eq):
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1375,6 +1377,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
         Zmax=Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
-- 
2.43.0


From 896a3ec9be0fec982232326505f849612e41acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 55/72] fix: optimiser can pick every agent of the population

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..53c2689 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -65,8 +65,8 @@ def pickUnique(N, m, e):
     inds = sorted(e)  # Sorted list of indices. Used to avoid clashes
     others = []  # The list of three agents
     for i in range(m):
-        high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
+        # Number of indices to choose from. Note: randint excludes the upper limit
+        newind = random.randint(0, N - i - len(e))
         
         for ind in inds:
             if newind == ind:
-- 
2.43.0


From f0b203790261cfa1bc58d6a8487fe87e6a946994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 56/72] fix: optimiser can use a single control, and always
 changes at least one

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 53c2689..712acfd 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From f7fe52ce26220fa20d2aa685d20401b43d26b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 57/72] fix: optimiser returns the best of the starting
 population

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 712acfd..84c38d2 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 994885e388259fd000eab474771f27134f46fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 58/72] fix: limits of zero on the position of coils are kept

---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..df9b448 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -96,9 +96,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +120,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From 3ec36ef9baae2c8af2c5bc83d0493c17b725a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:29 +0000
Subject: [PATCH 59/72] fix: length of field lines is positive if the toroidal
 field is negative

---
 freegs/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..81a7d0d 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,7 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        dldphi = np.abs(evolving_R_Bt) * B
 
         if backward:
             # Reverse direction
-- 
2.43.0


From e932b5ea724b555a0df2f5060d1467786d1b3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 60/72] fix: largest force on a coil can be calculated for
 machines with circuits and solenoids

---
 freegs/optimise.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index df9b448..30ef30f 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -41,8 +41,24 @@ def max_abs_coil_current(eq):
 
 
 def max_coil_force(eq):
-    forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    """
+    Given an equilibrium, return the maximum force on a coil
+    """
+
+    def max_force(forces):
+        # Note: Circuits have a dictionary of forces on their coils,
+        #       and there may be no forces e.g. for a Solenoid
+        return max(
+            (
+                max_force(force)
+                if isinstance(force, dict)
+                else sqrt(force[0] ** 2 + force[1] ** 2)
+                for force in forces.values()
+            ),
+            default=0.0,
+        )
+
+    return max_force(eq.tokamak.getForces())
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From bac17be8171a5a5d170ec565997e96ce17946a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 61/72] fix: largest force on a coil includes the field of the
 plasma

---
 freegs/optimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index 30ef30f..7218570 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -58,7 +58,7 @@ def max_coil_force(eq):
             default=0.0,
         )
 
-    return max_force(eq.tokamak.getForces())
+    return max_force(eq.getForces())
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From 43ef2b9f15a51aa1d916b46027df659272a09a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:42 +0000
Subject: [PATCH 62/72] fix: agents picked by the optimiser are equally likely

---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 84c38d2..1932e9a 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -69,7 +69,7 @@ def pickUnique(N, m, e):
         newind = random.randint(0, N - i - len(e))
         
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
-- 
2.43.0


From 10ea8c7af3363e0b4a33506812967c647ff78501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 63/72] fix: points beyond a corner of the wall are outside

---
 freegs/fieldtracer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 81a7d0d..baa8766 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -72,19 +72,21 @@ class FieldTracer(object):
 
             det = a * d - b * c
 
+            # Which side of line 1 the ends of the wall segment are on
+            start_side = a * (Zwall[wi] - Zmid) - c * (Rwall[wi] - Rmid)
+            end_side = a * dz - c * dr
+
             # Note: Here expect divide-by-zero errors occasionally
             # but the resulting values won't be used
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
-            beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
 
             # If the lines cross, change outside <-> inside
-            # Note: If det is small then lines are nearly parallel
+            # Note: If the line goes through a corner of the wall then
+            #       only one of the segments which meet there is counted
             outside ^= (
-                (np.abs(det) > 1e-6)
+                ((start_side > 0.0) != (end_side > 0.0))
                 & (alpha > 0.0)
                 & (alpha < 1.0)
-                & (beta > 0.0)
-                & (beta < 1.0)
             )
         evolving[outside] = 0.0
 
-- 
2.43.0


From 1b0e6e01902843e6df3a920baf70c6010d44a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 64/72] fix: field lines are followed if the middle of the
 domain is outside the wall

---
 freegs/fieldtracer.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index baa8766..85d03c6 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -49,31 +49,32 @@ class FieldTracer(object):
         Rwall = self._eq.tokamak.wall.R
         Zwall = self._eq.tokamak.wall.Z
 
-        # Location of the middle of the domain
-        Rmid = 0.5 * (self._eq.Rmin + self._eq.Rmax)
-        Zmid = 0.5 * (self._eq.Zmin + self._eq.Zmax)
+        # A location outside the wall. The middle of the domain might be
+        # on either side
+        Rout = np.min(Rwall) - 1.0
+        Zout = np.min(Zwall) - 1.0
 
         # True if a point is outside the wall
-        outside = np.full(R.shape, False)
+        outside = np.full(R.shape, True)
 
         nwall = len(Rwall)
         for wi in range(nwall):
-            # Find intersection between line from (Rmid, Zmid) to (R,Z)
+            # Find intersection between line from (Rout, Zout) to (R,Z)
             # with wall segment from (Rwall[wi], Zwall[wi]) to (Rwall[wi+1], Zwall[wi+1])
             wip = (wi + 1) % nwall
 
-            a = R - Rmid
+            a = R - Rout
             b = Rwall[wip] - Rwall[wi]
-            c = Z - Zmid
+            c = Z - Zout
             d = Zwall[wip] - Zwall[wi]
 
-            dr = Rwall[wip] - Rmid
-            dz = Zwall[wip] - Zmid
+            dr = Rwall[wip] - Rout
+            dz = Zwall[wip] - Zout
 
             det = a * d - b * c
 
             # Which side of line 1 the ends of the wall segment are on
-            start_side = a * (Zwall[wi] - Zmid) - c * (Rwall[wi] - Rmid)
+            start_side = a * (Zwall[wi] - Zout) - c * (Rwall[wi] - Rout)
             end_side = a * dz - c * dr
 
             # Note: Here expect divide-by-zero errors occasionally
-- 
2.43.0


From 7e78ca4f2b20a840be4d05b1821457bbb812f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 65/72] fix: field lines can be followed from a single point,
 and from arrays of any shape

---
 freegs/fieldtracer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 85d03c6..495107d 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -137,10 +137,14 @@ class FieldTracer(object):
         array_shape = Rstart.shape
         assert Zstart.shape == array_shape
 
-        evolving = np.ones(array_shape)
+        angles = np.asarray(angles)
+
+        evolving = np.ones(Rstart.size)
 
         # (R,Z,length) with length=0 initially
-        position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
+        position = np.column_stack(
+            (Rstart.ravel(), Zstart.ravel(), np.zeros(Rstart.size))
+        ).flatten()
 
         result = odeint(
             self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
-- 
2.43.0


From 9fbddcd8be5942e2c0e3e36bad3254d598edc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:24 +0000
Subject: [PATCH 66/72] fix: field lines can be followed a long way between
 angles

---
 freegs/fieldtracer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 495107d..92a3d91 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -147,7 +147,12 @@ class FieldTracer(object):
         ).flatten()
 
         result = odeint(
-            self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
+            self.fieldDirection,
+            position,
+            angles,
+            args=(evolving, backward),
+            rtol=rtol,
+            mxstep=100000,  # Angles may be far apart. The default is 500 steps
         )
 
         return result.reshape(angles.shape + array_shape + (3,))
-- 
2.43.0


From e15c5ec573df4f1da8b70bec6e4ac1a452fe4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:22 +0000
Subject: [PATCH 67/72] fix: profiles can be used to solve another equilibrium

---
 freegs/equilibrium.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6d52baa..27b432d 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -471,6 +471,10 @@ class Equilibrium:
         """
 
         self._profiles = profiles
+        if hasattr(profiles, "eq"):
+            # The profiles may have been created for another equilibrium
+            # e.g. at lower resolution
+            profiles.eq = self
         self._updateBoundaryPsi()
 
         if Jtor is None:
-- 
2.43.0


From bb5dd5656a2e073eb35fee870c88d4a6b4970c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 68/72] fix: profiles of refined equilibria aren't those of the
 original

---
 freegs/equilibrium.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 27b432d..1c3c5dc 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -3,6 +3,7 @@ Defines class to represent the equilibrium
 state, including plasma and coil currents
 """
 
+import copy
 from typing import Optional
 
 from numpy import pi, meshgrid, linspace, exp, array
@@ -1277,6 +1278,16 @@ class Equilibrium:
         return val
 
 
+def _copyProfiles(profiles, eq):
+    """
+    Copy of the profiles, to be used with the equilibrium eq
+    """
+    profiles = copy.copy(profiles)
+    if hasattr(profiles, "eq"):
+        profiles.eq = eq
+    return profiles
+
+
 def refine(eq, nx=None, ny=None):
     """
     Double grid resolution, returning a new equilibrium
@@ -1311,7 +1322,7 @@ def refine(eq, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _copyProfiles(eq._profiles, result)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1346,7 +1357,7 @@ def coarsen(eq):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = _copyProfiles(eq._profiles, result)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1387,7 +1398,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     )
 
     # Calculate the current on the old grid
-    profiles = eq._profiles
+    profiles = _copyProfiles(eq._profiles, eq)
     Jtor = profiles.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
 
     # Interpolate Jtor onto new grid
@@ -1411,7 +1422,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     # Solve once more, calculating Jtor using new psi
-    result.solve(profiles)
+    result.solve(_copyProfiles(profiles, result))
 
     return result
 
-- 
2.43.0


From a97e6426b18858f1210bfca59be040bcebbc8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:54 +0000
Subject: [PATCH 69/72] fix: array of flux which an equilibrium is made from
 isn't modified

---
 freegs/equilibrium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1c3c5dc..67b8e12 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -128,6 +128,9 @@ class Equilibrium:
             psi[:, 0] = 0.0
             psi[-1, :] = 0.0
             psi[:, -1] = 0.0
+        else:
+            # Copy, since the boundary is modified by solve
+            psi = array(psi)
 
         # Calculate coil Greens functions. This is an optimisation,
         # used in self.psi() to speed up calculations
-- 
2.43.0


From 28baf31cef647353b37bbab021921596d66d690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:41 +0000
Subject: [PATCH 70/72] fix: find_safety calculates the number of values which
 were asked for

---
 freegs/critical.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 80cab5f..b66e941 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -516,7 +516,6 @@ def find_safety(
             theta_grid += dtheta / 2
 
     if psinorm is None:
-        npsi = 100
         psirange = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
     else:
         try:
-- 
2.43.0


From 522ddccbf347c9c15fcc66d2a33575b4b62ae7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:37 +0000
Subject: [PATCH 71/72] fix: turns of a MultiCoil are plotted on the axes which
 were given

---
 freegs/multi_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 933a94f..0fa30fa 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -299,7 +299,7 @@ class MultiCoil(Coil):
             fig = plt.figure()
             axis = fig.add_subplot(111)
 
-        plt.plot(self.Rfil, self.Zfil, "bo")
+        axis.plot(self.Rfil, self.Zfil, "bo")
 
         return axis
 
-- 
2.43.0


From e99562cae3672575d5cc6bd9a07b6c7faa95a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:26 +0000
Subject: [PATCH 72/72] fix: both halves of a mirrored MultiCoil are plotted

---
 freegs/multi_coil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 0fa30fa..0fc604c 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -300,6 +300,8 @@ class MultiCoil(Coil):
             axis = fig.add_subplot(111)
 
         axis.plot(self.Rfil, self.Zfil, "bo")
+        if self.mirror:
+            axis.plot(self.Rfil, [-Z for Z in self.Zfil], "bo")
 
         return axis
 
-- 
2.43.0

