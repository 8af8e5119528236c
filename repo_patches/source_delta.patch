From 45bf8771839b25d27d777bf56acd15addef1e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 1/5] fix: do not skip pending outputs when the time step
 exceeds the time left

adjust_for_output tested the final time before the next output time, so a
time step larger than tf-t jumped to the end and dropped every snapshot
still pending.
---
 dg1d/rk.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 50a2928..a09f984 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -246,14 +246,14 @@ def adjust_for_output(dt, t, tf, tout):
     """
     #eps = 1e-14
 
+    # If we reached an output time (before the final time)
+    # if dt > (tout-t) - eps:
+    if dt > tout - t and tout < tf:
+        return tout - t, True, False
+
     # If we reached the final time (or almost)
-    if dt > tf - t:
+    elif dt > tf - t:
         return tf - t, True, True
 
-    # If we reached an output time
-    # elif dt > (tout-t) - eps:
-    elif dt > tout - t:
-        return tout - t, True, False
-
     else:
         return dt, False, False
-- 
2.43.0


From f2b634635e50eb453e8fcc8eddc486316ea1142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 2/5] fix: compare boundary condition names by value

apply_bc compared with 'is', which fails for names read from a snapshot:
the ghost cells of a loaded solution were never filled.
---
 dg1d/solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index c489e36..fe55125 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -527,17 +527,17 @@ class Solution:
         """Populates the ghost cells with the correct data depending on the BC"""
 
         # On the left side of the domain
-        if self.bc_l is 'periodic':
+        if self.bc_l == 'periodic':
             self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
-        elif self.bc_l is 'zerograd':
+        elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
-        if self.bc_r is 'periodic':
+        if self.bc_r == 'periodic':
             self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
-        elif self.bc_r is 'zerograd':
+        elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
-- 
2.43.0


From e9fbcdb678f9481e0088e1db5655ba2f24146f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 3/5] fix: scale the inverse mass matrix when loading a
 snapshot

The loader rebuilt the basis and the mesh but kept the inverse mass matrix
of the solution being replaced, so the time derivative of a loaded solution
was wrong (or of the wrong shape).
---
 dg1d/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index fe55125..80306b8 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -202,6 +202,9 @@ class Solution:
         B = self.xc[-1] + 0.5 * self.dx
         self.x, self.dx = np.linspace(A, B, self.N_E + 1, retstep=True)
 
+        # Scale the inverse mass matrix
+        self.scaled_minv = self.basis.minv * 2.0 / self.dx
+
         #
         # Read solution data from all the files
         #
-- 
2.43.0


From 6d11fc8f610675ff0403a1bab255008e1fdde946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 4/5] fix: hierarchical reconstruction of a piecewise constant
 solution

At order 0 there is no derivative to limit and the cell average was used
before being assigned.
---
 dg1d/limiting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 3af1ccf..02ea78c 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -124,6 +124,9 @@ class Limiter:
 
         alim = np.zeros(np.shape(ac))
 
+        # cell average of a constant solution (no derivatives to limit)
+        avgLC = ac[0]
+
         # loop on derivatives
         N = len(ac) - 1
         for m in range(N, 0, -1):
-- 
2.43.0


From 043339389453d78006b39c861b8e7963b09576b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 5/5] fix: stop when the Godunov iteration ends at a star state
 that is not physical

Close to vacuum the fixed-point iteration can converge to a slightly
negative pressure. None of the interface cases then applies and the flux
was computed from the variables left over from the previous interface.
---
 dg1d/euler_physics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 9d3871f..64677a4 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -194,6 +194,9 @@ def riemann_godunov(ul, ur):
             elif (SmR < 0) and (vR[i] + aR[i] > 0):
                 rmI, Um2, Um3 = sonic(
                     vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR)
+            else:
+                sys.exit(
+                    "Godunov star state is not physical. Exiting.")
 
             # Compute the flux: evaluate the physical flux at the interface
             # (middle)
-- 
2.43.0

