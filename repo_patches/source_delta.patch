From 1dd7d1b442d92ac9cbf73f8c4701fa639e2639e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:29 +0000
Subject: [PATCH 01/38] fix: MultiCoil fields include the number of turns of a
 single-point block

The block current is documented as current * turns, but the turns of a
MultiCoil given as a single (R,Z) were ignored in controlPsi/Br/Bz.
---
 freegs/multi_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..490ef97 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -157,7 +157,7 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * (self.turns / len(self.Rfil))
 
     def controlBr(self, R, Z):
         """
@@ -170,7 +170,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * (self.turns / len(self.Rfil))
 
     def controlBz(self, R, Z):
         """
@@ -183,7 +183,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * (self.turns / len(self.Rfil))
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From ffb03b7e08863f9d72c1ee2dcd89a48f786a0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:38 +0000
Subject: [PATCH 02/38] fix: MirroredCoil puts the lower coil at -Z and keeps
 current and control

Both coils were created at +Z, and the Circuit reset the requested
current to 0 and the control flag to True.
---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..1290377 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -307,10 +307,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From 772850eca3574766c87e5fa60a23e562b875070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:56 +0000
Subject: [PATCH 03/38] fix: PreCalcCoil multiplies its maps by the number of
 turns

The maps are given per ampere-turn and the total current of the coil is
current * turns, but turns was ignored.
---
 freegs/pre_calc_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..86b207e 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +140,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +152,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From f1e4de23264e114681e7af2065a3765eaa7dc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:37 +0000
Subject: [PATCH 04/38] fix: moving a ShapedCoil or FilamentCoil also moves its
 outline

Setting R or Z shifted the filaments but left the outline behind, so
plots, sensor overlap and saved files still had the old position.
---
 freegs/filament_coil.py | 2 ++
 freegs/shaped_coil.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From ac0a1a9a5c3e28706f294f4196804ebeb5b80aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:43 +0000
Subject: [PATCH 05/38] fix: MultiCoil keeps its own copy of the filament
 positions

Moving the coil modified the lists passed by the caller, and with them
every other coil made from the same lists.
---
 freegs/multi_coil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 490ef97..11fd154 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,8 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
-- 
2.43.0


From 851c417d99fb4732fcdcc7b08b472745c8cd2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:19 +0000
Subject: [PATCH 06/38] fix: evaluating a Circuit does not reset the currents
 of its coils

The current setter already keeps them at multiplier * current. Resetting
them in psi/Br/Bz undid the zeroing of a coil's own current in
Coil.getForces, so the singular self field entered the force on every
coil that is part of a circuit.
---
 freegs/machine.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1290377..1367d21 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -131,7 +131,6 @@ class Circuit:
         """
         psival = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             psival += coil.psi(R, Z)
         return psival
 
@@ -151,7 +150,6 @@ class Circuit:
         """
         psival = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             psival += coil.calcPsiFromGreens(pgreen[label])
         return psival
 
@@ -161,7 +159,6 @@ class Circuit:
         """
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Br(R, Z)
         return result
 
@@ -171,7 +168,6 @@ class Circuit:
         """
         result = 0.0
         for label, coil, multiplier in self.coils:
-            coil.current = self.current * multiplier
             result += coil.Bz(R, Z)
         return result
 
-- 
2.43.0


From ee0e4473f88f1d513e648ceabbd96bddaa0e5e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:27 +0000
Subject: [PATCH 07/38] fix: force on a coil without current is zero, not NaN

With the default area (proportional to current) the hoop force was
0 * log(inf) = NaN for a coil with zero current.
---
 freegs/coil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..473c5f7 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -177,6 +177,10 @@ class Coil:
         current = self.current  # current per turn
         total_current = current * self.turns  # Total toroidal current
 
+        if total_current == 0.0:
+            # No current, no force. Note: the area may be zero as well
+            return np.zeros(2)
+
         # Calculate field at this coil due to all other coils
         # and plasma. Need to zero this coil's current
         self.current = 0.0
-- 
2.43.0


From 21f09991a4020c2ce88b7b2d4a9447bacf55e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:45 +0000
Subject: [PATCH 08/38] fix: f = R*Bt has the sign of the vacuum field

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..3b28495 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -85,7 +85,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the sign of the vacuum field
+            return np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -105,7 +106,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the sign of the vacuum field
+            ovals[i] = np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From 3d45aedbb8d16269e9dc4795e272716652722f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:44 +0000
Subject: [PATCH 09/38] fix: flux at the limiter points is not that of the
 transposed grid

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..1155fe7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From 2ef32ea1b495d5dbbc14f584554a748d6d4ca810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:42 +0000
Subject: [PATCH 10/38] fix: limiter points cover the closing segment of the
 wall

---
 freegs/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1367d21..1b315b1 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -685,6 +685,9 @@ class Machine:
         # Make an interpolator for point location as function of normalised distance
         # along the wall
         points = np.array([self.wall.R, self.wall.Z]).T
+        if np.any(points[0] != points[-1]):
+            # The wall is a closed curve: include the last segment
+            points = np.concatenate([points, points[:1]])
         distance = np.cumsum(np.sqrt(np.sum(np.diff(points, axis=0) ** 2, axis=1)))
         distance = np.insert(distance, 0, 0) / distance[-1]
 
-- 
2.43.0


From 675233828491d40ef9db1ccf17686b12daf679d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 11/38] fix: shafranovShift and betaN use the number of
 separatrix points asked for

---
 freegs/equilibrium.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1155fe7..a3a426a 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -976,8 +976,8 @@ class Equilibrium:
         Rmag = self.Rmagnetic()
         Zmag = self.Zmagnetic()
 
-        Rgeo = self.Rgeometric()
-        z0 = self.Zgeometric()
+        Rgeo = self.Rgeometric(npoints=npoints)
+        z0 = self.Zgeometric(npoints=npoints)
 
         return np.array([Rmag - Rgeo, Zmag - z0])
 
@@ -1187,13 +1187,13 @@ class Equilibrium:
 
     def betaN(self, npoints=360):
         """Calculate normalised plasma beta"""
-        geo = self.geometricAxis()
+        geo = self.geometricAxis(npoints=npoints)
         Bt = self.Btor(geo[0], geo[1])
         return (
             100.0
             * 1.0e06
             * self.toroidalBeta()
-            * ((self.minorRadius() * Bt) / (self.plasmaCurrent()))
+            * ((self.minorRadius(npoints=npoints) * Bt) / (self.plasmaCurrent()))
         )
 
     def pressure_ave(self):
-- 
2.43.0


From c76a80d821c16f032f4103ab9d6b27f322ce12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 12/38] fix: poloidalBeta3 does not multiply the volume
 integral by the volume again

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index a3a426a..b5ceed0 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1146,9 +1146,8 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From cfdc10f4874bfc7b8d38e232bd14688b12bab63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 13/38] fix: ConstrainPsi2D and ConstrainPsi2DAdvanced accept a
 single number as weight

---
 freegs/control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..2b314b5 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -226,7 +226,8 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+        weights = np.full(target_psi.shape, weights, dtype=float)
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
@@ -352,7 +353,7 @@ class ConstrainPsi2DAdvanced(object):
 
         self.current_lims = current_lims
         self.target_psi = target_psi
-        self.weights = weights
+        self.weights = np.full(target_psi.shape, weights, dtype=float)
 
     def __call__(self, eq):
         """
-- 
2.43.0


From 06649566be500b8cc7641946c4b9350d1d418999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:21 +0000
Subject: [PATCH 14/38] fix: ConstrainPsi2DAdvanced removes the average of the
 target as of psi

---
 freegs/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 2b314b5..81b87bb 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -352,9 +352,11 @@ class ConstrainPsi2DAdvanced(object):
         """
 
         self.current_lims = current_lims
-        self.target_psi = target_psi
         self.weights = np.full(target_psi.shape, weights, dtype=float)
 
+        # Remove the average so constant offsets are ignored
+        self.target_psi = target_psi - np.average(target_psi, weights=self.weights)
+
     def __call__(self, eq):
         """
         Apply constraints to Equilibrium eq
-- 
2.43.0


From d5d6f83ce9729d2ec1112e6c986d461afbe0c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:28 +0000
Subject: [PATCH 15/38] fix: advanced psi constraints work without current
 limits

---
 freegs/control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/control.py b/freegs/control.py
index 81b87bb..ba906f1 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -369,6 +369,8 @@ class ConstrainPsi2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
@@ -464,6 +466,8 @@ class ConstrainPsiNorm2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
-- 
2.43.0


From e5c7af233825619a37079dc20df6e4fbe7eb0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:38 +0000
Subject: [PATCH 16/38] fix: Picard iteration does not converge on an earlier
 boundary change when there is no boundary

---
 freegs/picard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freegs/picard.py b/freegs/picard.py
index 8b40609..c44e6ff 100644
--- a/freegs/picard.py
+++ b/freegs/picard.py
@@ -181,6 +181,7 @@ def solve(
             # convergence when there is no boundary
             # ie set the change to > rtol
             bndry_relchange = 2.0 * rtol
+            bndry_change = np.inf
 
         # Get the new psi, including coils
         psi = eq.psi()
-- 
2.43.0


From a86eb87c1ea337e021e26eed77025810041e4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:18 +0000
Subject: [PATCH 17/38] fix: Rogowski sensors count the turns of a coil

---
 freegs/coil.py          | 2 +-
 freegs/filament_coil.py | 2 +-
 freegs/shaped_coil.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 473c5f7..ca5bca2 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -213,7 +213,7 @@ class Coil:
 
     def inShape(self, polygon):
         if polygon.contains(Point(self.R, self.Z)):
-            return 1
+            return self.turns
         else:
             return 0
 
diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..3166c34 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -307,7 +307,7 @@ class FilamentCoil(Coil):
         for r, z in self.points:
             if polygon.contains(geometry.Point(r, z)):
                 counter += 1 / self.npoints
-        return counter
+        return counter * self.turns
 
     def __repr__(self):
         return "FilamentCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index f5a56a3..d900e4b 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -126,7 +126,7 @@ class ShapedCoil(Coil):
 
     def inShape(self,polygon):
         Shaped_Coil = Polygon([shape for shape in self.shape])
-        return (polygon.intersection(Shaped_Coil).area) / (self._area)
+        return (polygon.intersection(Shaped_Coil).area) / (self._area) * self.turns
 
     def __repr__(self):
         return "ShapedCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From 33efa0542cc710d9cf05e9b128c707692522c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:37 +0000
Subject: [PATCH 18/38] fix: Rogowski sensors see every filament of a
 MultiCoil, also mirrored ones

---
 freegs/multi_coil.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 11fd154..85512ae 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -23,6 +23,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
 import numpy as np
+from shapely.geometry import Point
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 
@@ -185,6 +186,21 @@ class MultiCoil(Coil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
         return result * (self.turns / len(self.Rfil))
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the polygon
+        """
+        result = 0.0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                result += self.polarity[0]
+
+        if self.mirror:  # Mirror coil(s) in Z, creating circuit
+            for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+                if polygon.contains(Point(R_fil, -Z_fil)):
+                    result += self.polarity[1]
+        return result * (self.turns / len(self.Rfil))
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From fbeed1f053012f53a6d30c4e3b828ab01dbe4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:56 +0000
Subject: [PATCH 19/38] fix: Rogowski sensors work on a machine with a Solenoid

---
 freegs/machine.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1b315b1..173f93c 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -413,6 +413,15 @@ class Solenoid:
             result += GreensBz(self.Rs, Zs, R, Z)
         return result
 
+    def inShape(self, polygon):
+        """
+        Number of turns inside the polygon
+        """
+        return sum(
+            polygon.contains(Point(self.Rs, Zs))
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+        )
+
     def getForces(self, equilibrium):
         """
         Calculate forces on the solenoid.
-- 
2.43.0


From 74963b817403428c87e62a4cae9e712b42015b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:06 +0000
Subject: [PATCH 20/38] fix: measurements can be printed with a sensor switched
 off

---
 freegs/machine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 173f93c..904ccd1 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -504,9 +504,7 @@ class Sensor:
         self.name = name
         self.weight = weight
 
-        if self.status:
-            self.measurement = measurement
-
+        self.measurement = measurement
 
     def __repr__(self):
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
-- 
2.43.0


From 8212230849d79e99590a52a270fe747f11ebeed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:40 +0000
Subject: [PATCH 21/38] fix: intersection of open polylines uses all their
 segments and no others

---
 freegs/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..e3dfbd8 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -42,9 +42,9 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # Test for intersection between two line segments:
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
-            # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            # Note that if polynomials are closed the indices wrap around
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
-- 
2.43.0


From a59f85fc7ad058bd459a3c2e1dae67d47a60466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:48 +0000
Subject: [PATCH 22/38] fix: triangulate only clips ears that no other vertex
 is inside of

---
 freegs/polygons.py | 54 ++++++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index e3dfbd8..2bbdc76 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -102,6 +102,28 @@ def clockwise(polygon):
     return area(polygon) > 0
 
 
+def _cross(a, b, c):
+    """
+    Cross-product of edges a->b and b->c. Positive if turning clockwise
+    """
+    return (b[1] - a[1]) * (c[0] - b[0]) - (b[0] - a[0]) * (c[1] - b[1])
+
+
+def _inside(triangle, point, eps):
+    """
+    True if the point is inside the clockwise triangle or on one of its edges,
+    but not if it is one of the corners
+    """
+    a, b, c = triangle
+    if any(v[0] == point[0] and v[1] == point[1] for v in triangle):
+        return False
+    return (
+        _cross(a, b, point) >= -eps
+        and _cross(b, c, point) >= -eps
+        and _cross(c, a, point) >= -eps
+    )
+
+
 def triangulate(polygon):
     """
     Use the ear clipping method to turn an arbitrary polygon into triangles
@@ -121,6 +143,9 @@ def triangulate(polygon):
     nvert = len(polygon)  # Number of vertices
     assert nvert > 2
 
+    # Rounding error allowed for when comparing areas
+    eps = 1e-10 * area(polygon)
+
     triangles = []
     while nvert > 3:
         # Find an "ear"
@@ -131,36 +156,23 @@ def triangulate(polygon):
 
             # Take cross-product of edge from prev->vert and vert->next
             # to check whether the angle is > 180 degrees
-            cross = (vert[1] - prev_vert[1]) * (next_vert[0] - vert[0]) - (
-                vert[0] - prev_vert[0]
-            ) * (next_vert[1] - vert[1])
-            if cross < 0:
+            cross = _cross(prev_vert, vert, next_vert)
+            if cross < -eps:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # Check that the rest of the polygon stays out of this triangle
+            triangle = [prev_vert, vert, next_vert]
+            if cross > eps and any(_inside(triangle, v, eps) for v in polygon):
                 continue  # Skip
 
             # Found an ear
-            triangles.append([prev_vert, vert, next_vert])
+            triangles.append(triangle)
             # Remove this vertex
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Cannot triangulate: the polygon crosses itself")
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From 32509ec2ce97ae377dfe3612bb0b67b9ed977169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:55 +0000
Subject: [PATCH 23/38] fix: optimiser starts with the lowest score of the
 first population as best

---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..a521bfc 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 659ada61312a2dff91fcc40f97cecce618a615a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:01 +0000
Subject: [PATCH 24/38] fix: optimiser can change the last or only control and
 pick any other agent

---
 freegs/optimiser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index a521bfc..0025bdf 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -65,11 +65,11 @@ def pickUnique(N, m, e):
     inds = sorted(e)  # Sorted list of indices. Used to avoid clashes
     others = []  # The list of three agents
     for i in range(m):
-        high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
-        
+        # Choose one of the remaining values. Note: randint excludes upper limit
+        newind = random.randint(0, N - i - len(e))
+
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From 4e49df44f63f6ad1bdc87a57262627e796404fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:07 +0000
Subject: [PATCH 25/38] fix: optimiser controls keep to a limit of zero

---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..df9b448 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -96,9 +96,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +120,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From a0b567135e2f6a96694873cf7ef7b4bf94bf1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:15 +0000
Subject: [PATCH 26/38] fix: max_coil_force includes the plasma and works with
 circuits and solenoids

---
 freegs/optimise.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index df9b448..afcb6f6 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -40,9 +40,21 @@ def max_abs_coil_current(eq):
     return max(abs(current) for current in currents.values())
 
 
+def _all_forces(forces):
+    """
+    The force on each coil, including coils in circuits.
+    Forces on solenoids are not calculated
+    """
+    for force in forces.values():
+        if isinstance(force, dict):
+            yield from _all_forces(force)
+        else:
+            yield force
+
+
 def max_coil_force(eq):
-    forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    forces = eq.getForces()  # dictionary
+    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in _all_forces(forces))
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From 43bd7363fa8ada14e1c087596a45bb22797a6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:00 +0000
Subject: [PATCH 27/38] fix: q accepts a list of psinorm values, as documented

---
 freegs/equilibrium.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index b5ceed0..e6c5139 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -359,7 +359,8 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        psinorm = np.atleast_1d(psinorm)
+        if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
-- 
2.43.0


From d61716f1e9e215bc3161b5614f6c3170113c4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:08 +0000
Subject: [PATCH 28/38] fix: find_safety uses the plasma boundary, not the
 X-point, to normalise psi

---
 freegs/critical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..e6c3938 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -469,8 +469,9 @@ def find_safety(
     if (xpoint is None) or (len(xpoint) == 0):
         # No X-point
         raise ValueError("No X-point so no separatrix")
-    else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+
+    # Note: the plasma boundary may be limited by a wall
+    psinormal = (psi - opoint[0][2]) / (eq.psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
-- 
2.43.0


From 9476586324d096e5d9eba4282061b9bb2b4c655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:15 +0000
Subject: [PATCH 29/38] fix: find_separatrix avoids an X-point just below theta
 = 2 pi

---
 freegs/critical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index e6c3938..1db85f7 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -420,7 +420,10 @@ def find_separatrix(
     )  # let's make it between 0 and 2*pi
     # How close in theta to allow theta grid points to the X-point
     TOLERANCE = 1.0e-3
-    if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
+    # Note: theta = 0 is the same direction as theta = 2*pi
+    if any(abs(theta_grid - xpoint_theta) < TOLERANCE) or (
+        2 * pi - xpoint_theta < TOLERANCE
+    ):
         warn("Theta grid too close to X-point, shifting by half-step")
         theta_grid += dtheta / 2
 
-- 
2.43.0


From 08447e8cd4489a998fb324d5680137fd6e3cfb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:12 +0000
Subject: [PATCH 30/38] fix: find_safety avoids an X-point just below theta = 2
 pi

---
 freegs/critical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 1db85f7..bff56db 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -491,7 +491,10 @@ def find_safety(
     # How close in theta to allow theta grid points to the X-point
     TOLERANCE = 1.0e-3
 
-    if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
+    # Note: theta = 0 is the same direction as theta = 2*pi
+    if any(abs(theta_grid - xpoint_theta) < TOLERANCE) or (
+        2 * pi - xpoint_theta < TOLERANCE
+    ):
         warn("Theta grid too close to X-point, shifting by half-step")
         theta_grid += dtheta / 2
 
-- 
2.43.0


From f54bb3aad226762beaa6e096d72c596a62681f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:59 +0000
Subject: [PATCH 31/38] fix: multigrid cycles leave the initial guess as it was

---
 freegs/multigrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..7f3d9bc 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -73,7 +73,8 @@ class MGJacobi:
         """
 
         # Need to reshape x and b into 1D arrays
-        x = reshape(xi, -1)
+        # Note: x is updated in place, so must not be a view of xi
+        x = reshape(xi, -1).copy()
         b = reshape(bi, -1)
 
         if ncycle is None:
-- 
2.43.0


From 612ffc9bf35035a36d57e36468ee0919519394b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 32/38] fix: multigrid restriction uses full weighting, coarsen
 keeps psi at every second point

---
 freegs/equilibrium.py |  7 ++++++-
 freegs/multigrid.py   | 34 +++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index e6c5139..e9f39a2 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1312,7 +1312,12 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    # Keep every second point, if there is an even number of intervals
+    nx, ny = eq.plasma_psi.shape
+    if (nx % 2 == 1) and (ny % 2 == 1):
+        plasma_psi = eq.plasma_psi[::2, ::2].copy()
+    else:
+        plasma_psi = eq.plasma_psi.copy()
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 7f3d9bc..88178fe 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -92,7 +92,7 @@ class MGJacobi:
                 error = b - self.A.dot(x)
 
                 # Restrict error onto coarser mesh
-                self.sub_b = restrict(reshape(error, xi.shape))
+                self.sub_b = restrict(reshape(error, xi.shape), avg=True)
 
                 # smooth this error
                 sub_x = zeros(self.sub_b.shape)
@@ -204,19 +204,23 @@ def restrict(orig, out=None, avg=False):
         for y in range(1, ny - 1):
             x0 = 2 * x
             y0 = 2 * y
-            out[x, y] = orig[x0, y0] / 4.0
-            +(
-                orig[x0 + 1, y0]
-                + orig[x0 - 1, y0]
-                + orig[x0, y0 + 1]
-                + orig[x0, y0 - 1]
-            ) / 8.0
-            +(
-                orig[x0 - 1, y0 - 1]
-                + orig[x0 - 1, y0 + 1]
-                + orig[x0 + 1, y0 - 1]
-                + orig[x0 + 1, y0 + 1]
-            ) / 16.0
+            out[x, y] = (
+                orig[x0, y0] / 4.0
+                + (
+                    orig[x0 + 1, y0]
+                    + orig[x0 - 1, y0]
+                    + orig[x0, y0 + 1]
+                    + orig[x0, y0 - 1]
+                )
+                / 8.0
+                + (
+                    orig[x0 - 1, y0 - 1]
+                    + orig[x0 - 1, y0 + 1]
+                    + orig[x0 + 1, y0 - 1]
+                    + orig[x0 + 1, y0 + 1]
+                )
+                / 16.0
+            )
     if not avg:
         out *= 4.0
 
@@ -274,7 +278,7 @@ def smoothVcycle(A, x, b, dx, dy, niter=10, sublevels=0, direct=True):
         error = b - A(x, dx, dy)
 
         # Restrict error onto coarser mesh
-        Cerror = restrict(error)
+        Cerror = restrict(error, avg=True)
 
         # smooth this error
         Cx = zeros(Cerror.shape)
-- 
2.43.0


From 00638e37515f37cb3e8cc1c6076b9d5e65973d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 33/38] fix: refine, coarsen and newDomain keep the settings of
 the equilibrium

---
 freegs/equilibrium.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index e9f39a2..772ad2e 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1291,6 +1291,8 @@ def refine(eq, nx=None, ny=None):
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
         order=eq.order,
+        current=eq._current,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1326,6 +1328,10 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        current=eq._current,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1357,11 +1363,20 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        check_limited=eq.check_limited,
+        nx=nx,
+        ny=ny,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From d845b284e3e2631de793a88d4b0b342ba2687a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 34/38] fix: files keep the order of the operator and the
 limiter setting

---
 freegs/dump.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..d0a04b3 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -161,6 +161,10 @@ class OutputFile(object):
         equilibrium_group.create_dataset(
             "boundary_function", data=equilibrium._applyBoundary.__name__
         )
+        equilibrium_group.create_dataset("order", data=equilibrium.order)
+        equilibrium_group.create_dataset(
+            "check_limited", data=equilibrium.check_limited
+        )
 
         tokamak_group = equilibrium_group.create_group(self.MACHINE_GROUP_NAME)
 
@@ -238,6 +242,13 @@ class OutputFile(object):
 
         eq_boundary_func = boundary.__dict__[eq_boundary_name]
 
+        # Files written by older versions don't contain these settings
+        settings = {}
+        if "order" in equilibrium_group:
+            settings["order"] = int(equilibrium_group["order"][()])
+        if "check_limited" in equilibrium_group:
+            settings["check_limited"] = bool(equilibrium_group["check_limited"][()])
+
         equilibrium = Equilibrium(
             tokamak=tokamak,
             Rmin=Rmin,
@@ -249,6 +260,7 @@ class OutputFile(object):
             psi=plasma_psi,
             current=current,
             boundary=eq_boundary_func,
+            **settings,
         )
 
         return equilibrium
-- 
2.43.0


From 8e3bed86fafe921d890ff1549b541ef9e6491b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 35/38] fix: MultiCoil.from_numpy_array reads mirror and turns

---
 freegs/multi_coil.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 85512ae..baf7ff4 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -264,10 +264,10 @@ class MultiCoil(Coil):
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
+        mirror = value["mirror"]
         polarity = value["polarity"]
 
-        return MultiCoil(
+        result = MultiCoil(
             R,
             Z,
             current=current,
@@ -276,6 +276,9 @@ class MultiCoil(Coil):
             mirror=mirror,
             polarity=polarity,
         )
+        # Given lists of locations, turns is set to the number of filaments
+        result.turns = turns
+        return result
 
     def plot(self, axis=None, show=False):
         """
-- 
2.43.0


From 04ba5ff5d5a40d6ed9de7714965537e7ca6b411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 36/38] fix: Circuit.from_numpy_array with a first multiplier
 of zero

---
 freegs/machine.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 904ccd1..7dfb50e 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -262,14 +262,16 @@ class Circuit:
                 return s  # Probably already a string
 
         # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # which carries a current. Should be consistent!
+        first = next((row for row in value if row["multiplier"] != 0.0), value[0])
+
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
-            control=value[0][1]["control"],
+            current=first["coil"]["current"] / first["multiplier"],
+            control=first["coil"]["control"],
         )
 
     def plot(self, axis=None, show=False):
-- 
2.43.0


From f61cb99612526bbc8ae8ef505e4a32e3a97c267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 37/38] fix: field line length grows whatever the sign of the
 toroidal field

---
 freegs/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..7420c54 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,7 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        dldphi = evolving * R / np.abs(Btor) * B
 
         if backward:
             # Reverse direction
-- 
2.43.0


From e0abc9a4aa3b94032263217fc9925a23f715f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 38/38] fix: follow field lines from a single start or a grid
 of starts

---
 freegs/fieldtracer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 7420c54..d6a8d4d 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -134,10 +134,12 @@ class FieldTracer(object):
         array_shape = Rstart.shape
         assert Zstart.shape == array_shape
 
-        evolving = np.ones(array_shape)
+        evolving = np.ones(Rstart.size)
 
         # (R,Z,length) with length=0 initially
-        position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
+        position = np.column_stack(
+            (Rstart.flatten(), Zstart.flatten(), np.zeros(Rstart.size))
+        ).flatten()
 
         result = odeint(
             self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
-- 
2.43.0

