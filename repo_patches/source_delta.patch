From d8e13d462b97c82746e8aca4d60097f950373b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 01/45] fix: raise exception instances, not tuples, for an
 invalid gvec

---
 legume/phc/shapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..d8e1123 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -21,18 +21,18 @@ class Shape(object):
         if type(gvec) == list:
             gvec = np.array(gvec)
         elif type(gvec) != np.ndarray:
-            raise (TypeError, "Input gvec must be either of type list or \
-                                    np.ndarray")
+            raise TypeError("Input gvec must be either of type list or "
+                            "np.ndarray")
 
         if len(gvec.shape) != 2:
-            raise (ValueError, "Input gvec must be a 2D array")
+            raise ValueError("Input gvec must be a 2D array")
 
         elif gvec.shape[0] != 2:
             if gvec.shape[1] == 2:
                 gvec = gvec.T
             else:
-                raise (ValueError, "Input gvec must have length 2 \
-                                along one axis")
+                raise ValueError("Input gvec must have length 2 "
+                                 "along one axis")
 
         return (gvec[0, :], gvec[1, :])
 
-- 
2.43.0


From 69131baad92f86573a1832357b19dd2cb4fd6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 02/45] fix: Ellipse.__repr__ used undefined names

---
 legume/phc/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index d8e1123..67c4288 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,8 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return "Ellipse(eps = %.2f, x = %.4f, y = %.4f, rx = %.4f, ry = %.4f, phi = %.4f)" % \
+               (self.eps, self.x_cent, self.y_cent, self.rx, self.ry, self.phi)
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From 8b08f801a06dffc90e040be3797b9d52791c6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 03/45] fix: rotate an Ellipse about its own center, not about
 the origin

---
 legume/phc/shapes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 67c4288..b5cbe7c 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -155,16 +155,17 @@ class Ellipse(Shape):
             np.abs(np.square(g1y * self.ry)))
         gabs += 1e-10  # To avoid numerical instability at zero
 
-        ft = bd.exp(-1j*g1x*self.x_cent - 1j*g1y*self.y_cent)*self.rx*self.ry* \
+        ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
 
         return ft
 
     def is_inside(self, x, y):
-        x1 = x * bd.cos(self.phi) + y * bd.sin(self.phi)
-        y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
-        return (np.square((x1 - self.x_cent) / self.rx) + np.square(
-            (y1 - self.y_cent) / self.ry) <= 1)
+        dx = x - self.x_cent
+        dy = y - self.y_cent
+        x1 = dx * bd.cos(self.phi) + dy * bd.sin(self.phi)
+        y1 = -dx * bd.sin(self.phi) + dy * bd.cos(self.phi)
+        return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
 
 class Poly(Shape):
-- 
2.43.0


From 8b1fb0803722573979c9109846ed8e21560b3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 04/45] fix: Lattice.bz_path accepts an integer ns as
 documented

---
 legume/phc/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 27ef912..500f155 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -132,7 +132,7 @@ class Lattice(object):
             A dictionary with the 'kpoints', 'labels',
             'indexes', 'k_indexes', and the 'angles' corresponding to the labels.      
         """
-        if not isinstance(ns, list): ns = list(ns)
+        if np.ndim(ns) == 0: ns = [ns]
         npts = len(pts)
         if npts < 2:
             raise ValueError("At least two points must be given")
-- 
2.43.0


From 8381eec9ab2c98c626de5fdf689183625f513b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 05/45] fix: Lattice.xy_grid accepts a single number of periods
 as documented

---
 legume/phc/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 500f155..072e8ff 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -95,8 +95,8 @@ class Lattice(object):
                 periods = [1, 1]
             else:
                 periods = [2, 2]
-        elif np.array(periods).shape == 1:
-            periods = periods[0] * np.ones((2, ))
+        elif np.size(periods) == 1:
+            periods = np.ravel(periods)[0] * np.ones((2, ))
 
         ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
-- 
2.43.0


From 2957ca93b06b4b938dfad81c3ea647bd631d9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 06/45] fix: Lattice.xy_grid extent for primitive vectors with
 negative components

---
 legume/phc/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 072e8ff..5a50b01 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -98,10 +98,10 @@ class Lattice(object):
         elif np.size(periods) == 1:
             periods = np.ravel(periods)[0] * np.ones((2, ))
 
-        ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
+        ymax = max(np.abs([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
 
-        xmax = np.abs(max([self.a1[0], self.a2[0]])) * periods[0] / 2
+        xmax = max(np.abs([self.a1[0], self.a2[0]])) * periods[0] / 2
         xmin = -xmax
 
         return (np.linspace(xmin, xmax, Nx), np.linspace(ymin, ymax, Ny))
-- 
2.43.0


From d08f8c101422d72b9a7d3ba0cc5c42406e703e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 07/45] fix: Lattice rejects a wrong number of arguments
 explicitly

---
 legume/phc/lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 5a50b01..873bed1 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -68,6 +68,9 @@ class Lattice(object):
             else:
                 self.type = 'custom'
 
+        else:
+            raise ValueError("Lattice takes one or two arguments.")
+
         return (a1, a2)
 
     def xy_grid(self, Nx=100, Ny=100, periods=None):
-- 
2.43.0


From 3153f8b5e803fafd0f27c9f635761dcc452c2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 08/45] fix: normalize and shift the excitonic potential once,
 not once per shape

---
 legume/phc/layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..abaee42 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -166,13 +166,13 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
-            FT = FT / self.lattice.ec_area
-            # If the potential is negative we must shift all energies
+        FT = FT / self.lattice.ec_area
+        # If the potential is negative we must shift all energies
 
-            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
-            # If the first element corresponding to V(0) is negative we shift the energies by Vmax
-            if FT[ind0][0] < 0:
-                FT[ind0] += bd.abs(Vmax)
+        ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+        # If the first element corresponding to V(0) is negative we shift the energies by Vmax
+        if FT[ind0][0] < 0:
+            FT[ind0] += bd.abs(Vmax)
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0


From 352438bc81a6bf6e9d1df03bd4c7d9502241b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 09/45] fix: ft2square used an undefined name

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 05c1c53..db45785 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -73,7 +73,7 @@ def ft2square(lattice, ft_coeff, gvec):
 
     for jG in range(gvec.shape[1]):
         nG = np.int_(gvec[:, jG] / [dgx, dgy])
-        eps_ft[nx + nG1[0], ny + nG1[1]] = ft_coeff[jG]
+        eps_ft[nx + nG[0], ny + nG[1]] = ft_coeff[jG]
 
     return (eps_ft, gx_grid, gy_grid)
 
-- 
2.43.0


From 774d80feaec950196c915d03c0390f20b48823a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 10/45] fix: FreeformLayer could not be constructed

---
 legume/phc/layer.py | 4 ++--
 legume/phc/phc.py   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index abaee42..d755b2d 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -214,7 +214,7 @@ class FreeformLayer(Layer):
     """
 
     def __init__(self, lattice, z_min=0, z_max=0, eps_init=1, res=10):
-        super().__init__(lattice, z_min, z_max, eps_b)
+        super().__init__(lattice, z_min, z_max)
 
         # Initialize average permittivity - needed for guided-mode computation
         self.eps_avg = np.array(eps_init)
@@ -223,7 +223,7 @@ class FreeformLayer(Layer):
         self.layer_type = 'freeform'
         self._init_grid(res)
 
-    def _init_grid(res):
+    def _init_grid(self, res):
         """
         Initialize a grid with resolution res, with res[0] pixels along the 
         lattice.a1 direction and res[1] pixels along the lattice.a2 direction
diff --git a/legume/phc/phc.py b/legume/phc/phc.py
index f8711ad..a3835c3 100644
--- a/legume/phc/phc.py
+++ b/legume/phc/phc.py
@@ -81,7 +81,10 @@ class PhotCryst(object):
         if layer_type.lower() == 'shapes':
             layer = ShapesLayer(self.lattice, z_min, z_min + d, eps_b=eps_b)
         elif layer_type.lower() == 'freeform':
-            layer = FreeformLayer(self.lattice, z_min, z_min + d, eps_b=eps_b)
+            layer = FreeformLayer(self.lattice,
+                                  z_min,
+                                  z_min + d,
+                                  eps_init=eps_b)
         else:
             raise ValueError("'layer_type' must be 'shapes' or 'freeform'")
 
-- 
2.43.0


From 3206da2b8721a48499308fc19dd65eb44cfd5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 11/45] fix: generate_gds_raster with cell_bound=False used an
 unbound name

---
 legume/gds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..def80d1 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -124,7 +124,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From 486cf6daa796c7d109a91112d20ca5dd943815a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 12/45] fix: GDS export of the Ellipse and FourierShape shapes

---
 legume/gds.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index def80d1..6393dbc 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -4,7 +4,7 @@ logger = logging.getLogger(__name__)
 
 import numpy as np
 
-from . import Circle, Poly, Square, Hexagon
+from . import Circle, Ellipse, Poly
 
 try:
     import gdspy
@@ -45,14 +45,22 @@ def generate_gds(phc, filename, unit=1e-6, tolerance=0.01):
 
     for i, layer in enumerate(phc.layers):
         for shape in layer.shapes:
-            if type(shape) in [Poly, Square, Hexagon]:
+            if isinstance(shape, Poly):
                 points = [
                     (x, y)
                     for (x, y) in zip(shape.x_edges[:-1], shape.y_edges[:-1])
                 ]
                 poly = gdspy.Polygon(points, layer=i, datatype=1)
                 cell.add(poly)
-            elif type(shape) == Circle:
+            elif isinstance(shape, Ellipse):
+                ellipse = gdspy.Round((shape.x_cent, shape.y_cent),
+                                      (shape.rx, shape.ry),
+                                      layer=i,
+                                      datatype=1,
+                                      tolerance=tolerance)
+                ellipse.rotate(shape.phi, (shape.x_cent, shape.y_cent))
+                cell.add(ellipse)
+            elif isinstance(shape, Circle):
                 circle = gdspy.Round((shape.x_cent, shape.y_cent),
                                      shape.r,
                                      layer=i,
-- 
2.43.0


From 99d6ede2b7a021482dec0e0f1650591705f2e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 13/45] fix: order of G and G' in the matrices of the 'abs'
 truncation

The matrices held eps(G' - G), which is the structure inverted in the plane:
the fields of a cell without inversion symmetry came out mirrored.
---
 legume/exc/exc.py | 16 ++++++++--------
 legume/gme/gme.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..e0e2882 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -242,10 +242,10 @@ class ExcitonSchroedEq(object):
          assuming abs-initialized reciprocal lattice
         """
 
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
         """
         Old code calculating all redundant delta_g = Gi-Gj
         pot_ft = self.layer.compute_exc_ft(np.vstack((ggridx, ggridy)),
@@ -256,10 +256,10 @@ class ExcitonSchroedEq(object):
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         indgrid = bd.array([indgridx, indgridy])
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..09f36e5 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -447,19 +447,19 @@ class GuidedModeExp(object):
 
         # x and y components of delta_G = G1-G2,
         #the dimension of ggrdix and ggrdiy is [Ng^2]
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
 
         # The dimension of G1 is [2,Ng^2]
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         # This is the bottleneck in terms of timing, we should find
-- 
2.43.0


From 371688df07e20caf4c26cdee429bf69d27d11852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 14/45] fix: recompute the inverse permittivity matrices on
 every run

They were cached by the first run, so that 'only_gmodes' of a first run
decided about the result of all later ones.
---
 legume/gme/gme.py | 95 +++++++++++++++++++++++------------------------
 1 file changed, 46 insertions(+), 49 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 09f36e5..f97a866 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -646,59 +646,56 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
-            # List of inverse permittivity matrices for every layer
-            self.eps_inv_mat = []
-
-            if self.truncate_g == 'tbt':
-                for it, T1 in enumerate(self.T1):
-                    self.hom_layer = []
-                    # For now we just use the numpy inversion. Later on we could
-                    # implement the Toeplitz-Block-Toeplitz inversion (faster)
-                    if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
-                        self.eps_inv_mat.append(
-                            bd.eye(T1.size, T1.size) / T1[0])
-                        self.hom_layer.append(True)
-                    else:
-                        eps_mat = bd.toeplitz_block(self.n1g, T1, self.T2[it])
-                        self.eps_inv_mat.append(bd.inv(eps_mat))
-                        self.hom_layer.append(False)
-            elif self.truncate_g == 'abs':
+        # List of inverse permittivity matrices for every layer
+        self.eps_inv_mat = []
 
-                self.eps_mat = []
+        if self.truncate_g == 'tbt':
+            for it, T1 in enumerate(self.T1):
                 self.hom_layer = []
+                # For now we just use the numpy inversion. Later on we could
+                # implement the Toeplitz-Block-Toeplitz inversion (faster)
+                if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
+                    self.eps_inv_mat.append(
+                        bd.eye(T1.size, T1.size) / T1[0])
+                    self.hom_layer.append(True)
+                else:
+                    eps_mat = bd.toeplitz_block(self.n1g, T1, self.T2[it])
+                    self.eps_inv_mat.append(bd.inv(eps_mat))
+                    self.hom_layer.append(False)
+        elif self.truncate_g == 'abs':
 
-                layers = [self.phc.claddings[0]] + self.phc.layers + \
-                                [self.phc.claddings[1]]
-                for it, T1 in enumerate(self.T1):
-                    # We are iterating of layers
-
-                    mod_G1 = bd.norm(self.G1, axis=0)
-                    # Calculate the eps only if there are shapes in layer
-                    # and eps is not trivially diagonal
-
-                    index_G0 = np.argmin(mod_G1)
-                    eps_ft = bd.reshape(
-                        T1, (self.gvec[0, :].size, self.gvec[0, :].size))
-
-                    if bd.sum(bd.abs(
-                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:
-                        # Here eps is diagonal
-                        self.hom_layer.append(True)
-                        self.eps_mat.append(
-                            bd.eye(np.shape(eps_ft)[0],
-                                   np.shape(eps_ft)[1]) * T1[index_G0])
-                        self.eps_inv_mat.append(
-                            bd.eye(np.shape(eps_ft)[0],
-                                   np.shape(eps_ft)[1]) / T1[index_G0])
-                    else:
-                        # Here explicitly calculate eps
+            self.eps_mat = []
+            self.hom_layer = []
+
+            layers = [self.phc.claddings[0]] + self.phc.layers + \
+                            [self.phc.claddings[1]]
+            for it, T1 in enumerate(self.T1):
+                # We are iterating of layers
+
+                mod_G1 = bd.norm(self.G1, axis=0)
+                # Calculate the eps only if there are shapes in layer
+                # and eps is not trivially diagonal
+
+                index_G0 = np.argmin(mod_G1)
+                eps_ft = bd.reshape(
+                    T1, (self.gvec[0, :].size, self.gvec[0, :].size))
+
+                if bd.sum(bd.abs(
+                        T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:
+                    # Here eps is diagonal
+                    self.hom_layer.append(True)
+                    self.eps_mat.append(
+                        bd.eye(np.shape(eps_ft)[0],
+                               np.shape(eps_ft)[1]) * T1[index_G0])
+                    self.eps_inv_mat.append(
+                        bd.eye(np.shape(eps_ft)[0],
+                               np.shape(eps_ft)[1]) / T1[index_G0])
+                else:
+                    # Here explicitly calculate eps
 
-                        self.eps_mat.append(eps_ft)
-                        self.eps_inv_mat.append(bd.inv(eps_ft))
-                        self.hom_layer.append(False)
+                    self.eps_mat.append(eps_ft)
+                    self.eps_inv_mat.append(bd.inv(eps_ft))
+                    self.hom_layer.append(False)
 
     def set_run_options(self,
                         gmode_compute='exact',
-- 
2.43.0


From 99fca430e30d74fea3bb34fdb394cf104f72f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 15/45] fix: keep hom_layer of all layers with 'tbt' truncation

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index f97a866..994fc72 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -650,8 +650,8 @@ class GuidedModeExp(object):
         self.eps_inv_mat = []
 
         if self.truncate_g == 'tbt':
+            self.hom_layer = []
             for it, T1 in enumerate(self.T1):
-                self.hom_layer = []
                 # For now we just use the numpy inversion. Later on we could
                 # implement the Toeplitz-Block-Toeplitz inversion (faster)
                 if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
-- 
2.43.0


From 248501589446d095b1b36d9d6310a7be2fa60e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 16/45] fix: forget the basis indexes of the previous run

The symmetry separation of a second run used those of the first.
---
 legume/gme/gme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 994fc72..bd014e2 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -872,6 +872,7 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
-- 
2.43.0


From 3be24dec081f085641447057c9de6e67fb337635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 17/45] fix: drop the losses of the previous run when running
 again

With compute_im=False the old values stayed next to the new frequencies.
---
 legume/gme/gme.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index bd014e2..587788c 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -876,6 +876,12 @@ class GuidedModeExp(object):
         self.N_basis = []
         self.gmode_include = []
 
+        # Losses and radiative couplings are those of this run only
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+
         #Check if angles are provided in case is not None
         if self.kz_symmetry is None:
             pass
-- 
2.43.0


From b77bdeb408f48855723ec8bf5baac324d58e4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 18/45] fix: kz_symms before the first run

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 587788c..4bac097 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -54,7 +54,7 @@ class GuidedModeExp(object):
         self.gmode_include = []
 
         # Initialize all the attributes defined as properties below
-        self._symm = []
+        self._kz_symms = []
         self._freqs = []
         self._freqs_im = []
         self._unbalance_sp = []
-- 
2.43.0


From 22ce1f7587b0fc5dfa5652b33a5a83d9b14f1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 19/45] fix: labels of the odd modes with kz_symmetry='both'

There were as many -1 labels as even modes, not as odd modes.
---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 4bac097..a5c5d83 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1066,7 +1066,7 @@ class GuidedModeExp(object):
                     symm1 = bd.concatenate((np.full(self.even_counts[ik],
                                                     1,
                                                     dtype=int),
-                                            np.full(self.even_counts[ik],
+                                            np.full(self.odd_counts[ik],
                                                     -1,
                                                     dtype=int)))
                     freq1 = bd.concatenate((freq1_even, freq1_odd))
-- 
2.43.0


From 37718130e4dded9fd283f1701cf934ea62088b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 20/45] fix: symmetry separation when some guided modes are not
 included

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index a5c5d83..abac6a3 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1264,7 +1264,7 @@ class GuidedModeExp(object):
         blocks = []  #
         blocks_w = []  #eigenvectors
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
 
             #Block of symmetry operator corresponding to (k,ind_alpha)
@@ -1402,7 +1402,7 @@ class GuidedModeExp(object):
         #dim_final = np.shape(mat)[0]
         dim_final = 0
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
             # These are for creating sparse matrix
             # check_g to avoid double counting on reflected g
-- 
2.43.0


From 00eec2e52c31b81bf1c375acdbea2bd5feb8992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 21/45] fix: reject unsupported gmode_compute, gradients and
 use_sparse options

---
 legume/gme/gme.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index abac6a3..34e0b81 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -901,6 +901,15 @@ class GuidedModeExp(object):
             #             " w.r.t. a vertical plane of symmetry.")
             refl_mat = self._calculate_refl_mat(angles)
 
+        if self.gmode_compute.lower() not in {'exact', 'interp'}:
+            raise ValueError("'gmode_compute' can be 'exact' or 'interp'")
+
+        if self.gradients not in {'exact', 'approx'}:
+            raise ValueError("'gradients' can be 'exact' or 'approx'")
+
+        if self.use_sparse not in {True, False}:
+            raise ValueError("'use_sparse' can be True or False")
+
         if self.truncate_g == 'tbt':
             if self.only_gmodes:
                 raise ValueError(
-- 
2.43.0


From 9798cff2a014967a934dabadec21fe0203e3fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 22/45] fix: slab mode normalization for any case of the
 polarization

guided_modes(pol='te') failed and rad_modes(pol='TE') was not normalized.
---
 legume/gme/slab_modes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..2ed4164 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -437,7 +437,7 @@ def normalization_coeff(omega,
         chi_array = chi(omega, g, eps_array)
     As = ABref[:, 0].ravel()
     Bs = ABref[:, 1].ravel()
-    if pol == 'TM':
+    if pol.lower() == 'tm':
         term1 = (bd.abs(Bs[0])**
                  2) * J_alpha(chi_array[0] - bd.conj(chi_array[0]))
         term2 = (bd.abs(As[-1])**2) * \
@@ -448,7 +448,7 @@ def normalization_coeff(omega,
                 (bd.conj(As[1:-1]) * Bs[1:-1] + As[1:-1] * bd.conj(Bs[1:-1])) *
                 I_alpha(-chi_array[1:-1]-bd.conj(chi_array[1:-1]),d_array)  )
         return term1 + term2 + bd.sum(term3)
-    elif pol == 'TE':
+    elif pol.lower() == 'te':
         term1 = (bd.abs(chi_array[0])**2 + g**2) * \
             (bd.abs(Bs[0])**2) * J_alpha(chi_array[0]-bd.conj(chi_array[0]))
         term2 = (bd.abs(chi_array[-1])**2 + g**2) * \
@@ -512,7 +512,7 @@ def rad_modes(omega: float,
 
         # Normalize
         coeffs = coeffs / coeffs[1, -1]
-        if pol == 'te':
+        if pol.lower() == 'te':
             c_ind = [0, -1]
             coeffs = coeffs / bd.sqrt(eps_array[c_ind[clad]]) / omega
         # Assign correctly based on which cladding the modes radiate to
-- 
2.43.0


From 1b13546f6085f8fec515ca82a62deca30d3853a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 23/45] fix: reject an unsupported polarization or cladding of
 the slab modes

---
 legume/gme/slab_modes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 2ed4164..c75779e 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -296,6 +296,9 @@ def D22s_vec(omegas, g, eps_array, d_array, pol='TM'):
     It is currently not used in the root finding, but it could be useful if 
     there is a routine that can take advantage of the vectorization. 
     """
+    if pol.lower() not in {'te', 'tm'}:
+        raise ValueError("Polarization should be 'TE' or 'TM'.")
+
     if isinstance(omegas, float):
         omegas = np.array([omegas])
 
@@ -485,6 +488,11 @@ def rad_modes(omega: float,
     Xs, Ys          : X, Y coefficients of the modes in every layer
     """
 
+    if pol.lower() not in {'te', 'tm'}:
+        raise ValueError("Polarization should be 'TE' or 'TM'.")
+    if clad not in {0, 1}:
+        raise ValueError("'clad' should be 0 or 1.")
+
     Xs, Ys = [], []
     for ig, g in enumerate(g_array):
         g_val = max([g, 1e-10])
-- 
2.43.0


From c106c6a40fe962c83cc86269bc9eb93d14fa3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 24/45] fix: result attributes before the first run

Reading them raised an AttributeError in place of returning the empty result.
---
 legume/exc/exc.py | 6 ++++++
 legume/pol/pol.py | 9 +++++++++
 legume/pwe/pwe.py | 6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index e0e2882..1d6b285 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -76,6 +76,12 @@ class ExcitonSchroedEq(object):
         self.osc_str = osc_str
         self.truncate_g = truncate_g
 
+        # Initialize all the attributes defined as properties below
+        self._eners = None
+        self._eigvecs = None
+        self._kpoints = None
+        self._gvec = None
+
         if osc_str is not None:
             if type(self.osc_str) == list:
                 self.osc_str = np.asarray(self.osc_str)
diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..596e05e 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -27,7 +27,16 @@ class HopfieldPol(object):
             parallelogram in reciprocal space, while ``'abs'`` takes a circle.
         """
 
+        # Initialize all the attributes defined as properties below
+        self._eners = None
+        self._eners_im = None
+        self._eigvecs = None
+        self._fractions_ex = None
+        self._fractions_ph = None
+        self._kpoints = None
+
         self.gme = GuidedModeExp(phc, gmax, truncate_g=truncate_g)
+        self._gvec = self.gme.gvec
 
         self.exc_list = []
 
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..76d99e0 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -24,6 +24,12 @@ class PlaneWaveExp(object):
         self.layer = layer
         self.gmax = gmax
 
+        # Initialize all the attributes defined as properties below
+        self._freqs = None
+        self._eigvecs = None
+        self._kpoints = None
+        self._gvec = None
+
         # The effective epsilon can be useful for simulations of an effective
         # slab of a given thickness and at a particular frequency.
         if not eps_eff:
-- 
2.43.0


From b8089b7318dc60fb5b8acb17fc8e84fbe5e22ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 25/45] fix: HopfieldPol.run does not modify the option
 dictionaries of the caller

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 596e05e..670dbcc 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -297,8 +297,8 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        gme_options = {**gme_options, 'kpoints': self.kpoints}
+        exc_options = {**exc_options, 'kpoints': self.kpoints}
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From de11d4bd6289e9d5cdd5fe0db92f74c81c482ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 26/45] fix: couple the photons through the diamagnetic term of
 all quantum wells

The off-diagonal blocks held that of the last quantum well only.
---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 670dbcc..86f95b1 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -238,11 +238,11 @@ class HopfieldPol(object):
         diag_phot = diag_phot + 2 * bd.real(D_final_block)
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block, -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot, -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From e7b15641eae0db23482dcbdf2c1f322ee5573ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 27/45] fix: get_pot_xy with 'tbt' truncation used a single
 Fourier coefficient

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 1d6b285..8b9e36d 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -418,8 +418,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From 520607ad6f59fb80433001856b0d14c3b15b29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 28/45] fix: gradient of eig used undefined names

---
 legume/primitives.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..6f07044 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -348,14 +348,14 @@ def vjp_maker_eig(ans, x):
 
     def vjp(g):
         ge, gu = g
-        ge = _matrix_diag(ge)
+        ge = np.diag(ge)
         f = 1 / (e[..., np.newaxis, :] - e[..., :, np.newaxis] + 1.e-20)
-        f -= _diag(f)
+        f -= np.diag(np.diag(f))
         ut = np.swapaxes(u, -1, -2)
-        r1 = f * _dot(ut, gu)
-        r2 = -f * (_dot(_dot(ut, np.conj(u)),
-                        np.real(_dot(ut, gu)) * np.eye(n)))
-        r = _dot(_dot(inv(ut), ge + r1 + r2), ut)
+        r1 = f * np.dot(ut, gu)
+        r2 = -f * (np.dot(np.dot(ut, np.conj(u)),
+                          np.real(np.dot(ut, gu)) * np.eye(n)))
+        r = np.dot(np.dot(np.linalg.inv(ut), ge + r1 + r2), ut)
         if not np.iscomplexobj(x):
             r = np.real(r)
             # the derivative is still complex for real input (imaginary delta is allowed), real output
-- 
2.43.0


From 74c2ffdef25f2342ccb77e2292666c86caed6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 29/45] fix: gradient of eigsh does not draw from the global
 random state

---
 legume/primitives.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 6f07044..cf98ea5 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -211,11 +211,9 @@ def vjp_maker_eigsh(ans, mat, **kwargs):
                 Amat = T(mat - a * np.eye(N, N))
                 b = P.dot(vg)
 
-                # Initial guess orthogonal to v
-                v0 = P.dot(np.random.randn(N))
-
-                # Find a solution lambda_0 using conjugate gradient
-                (l0, _) = sp.linalg.cg(Amat, b, x0=v0, atol=0)
+                # Find a solution lambda_0 using conjugate gradient, starting
+                # from zero, which is orthogonal to v
+                (l0, _) = sp.linalg.cg(Amat, b, atol=0)
                 # Project to correct for round-off errors
                 l0 = P.dot(l0)
 
-- 
2.43.0


From a69f46dd5415d9c4ef272ef82252c8a4ca92600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 30/45] fix: Q_clip of pol_bands had no effect

---
 legume/viz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..2f38237 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -304,6 +304,7 @@ def pol_bands(pol,
         fig, ax = plt.subplots(1, 1, constrained_layout=True, figsize=figsize)
     if Q and not (fraction):
         Q = _calculate_Q(pol.eners.flatten(), np.array(pol.eners_im).flatten())
+        Q_max = min(Q_max, Q_clip)
         p = ax.scatter(X.flatten(),
                        pol.eners.flatten(),
                        c=Q,
-- 
2.43.0


From 1fccc196d26f97f4ad1403f9d3349e66a1942c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 31/45] fix: matplotlib.cm.get_cmap was removed from matplotlib

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 2f38237..85eb7aa 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip])
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From 13a59754c87163631f35188c05bfd88d84a9facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 32/45] fix: Bloch phase of the fields plotted in the xy plane
 with periodic=False

x and y were added point by point and not over the grid.
---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 85eb7aa..eb248e4 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1217,8 +1217,8 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            kenv = np.exp(1j * grid1[np.newaxis, :] * struct.kpoints[0, kind] +
+                          1j * grid2[:, np.newaxis] * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From 4afd4dcdccd56e29d13b1d66cf5efff43f143914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 33/45] fix: eps_ft and pot_ft in a given gridspec used an
 undefined name

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index eb248e4..f4260fb 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -949,9 +949,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1075,9 +1075,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From d672b24ad32936b985a1637d5ab98675abd7a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 34/45] fix: viz.shapes with an Ellipse in the layer

---
 legume/viz.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index f4260fb..d1e0caf 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -4,7 +4,7 @@ import numpy as np
 from legume.utils import from_freq_to_e
 import warnings
 from .gme import GuidedModeExp
-from .phc import PhotCryst, Circle
+from .phc import PhotCryst, Circle, Ellipse
 from .pwe import PlaneWaveExp
 from .exc import ExcitonSchroedEq
 from .pol import HopfieldPol
@@ -642,7 +642,7 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
         xy_p = [a1, -a1, a2, -a2]
 
     for shape in layer.shapes:
-        if type(shape) == Circle:
+        if isinstance(shape, Circle):
             x = shape.x_cent
             y = shape.y_cent
             r = shape.r
@@ -657,12 +657,21 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
                                  lw=lw,
                                  npts=npts)
         else:
-            # Everything else should be a Poly subclass
-            ax.plot(shape.x_edges, shape.y_edges, c=color, lw=lw)
+            if isinstance(shape, Ellipse):
+                t = np.linspace(0, 2 * np.pi, npts)
+                (xe, ye) = (shape.rx * np.cos(t), shape.ry * np.sin(t))
+                x = shape.x_cent + xe * np.cos(shape.phi) - \
+                            ye * np.sin(shape.phi)
+                y = shape.y_cent + xe * np.sin(shape.phi) + \
+                            ye * np.cos(shape.phi)
+            else:
+                # Everything else should be a Poly subclass
+                (x, y) = (shape.x_edges, shape.y_edges)
+            ax.plot(x, y, c=color, lw=lw)
             if pad == True:
                 for (x_p, y_p) in xy_p:
-                    ax.plot(shape.x_edges + x_p,
-                            shape.y_edges + y_p,
+                    ax.plot(x + x_p,
+                            y + y_p,
                             c=color,
                             lw=lw)
     ax.set_xlim(xext)
-- 
2.43.0


From 8ac4c3af8d0293cfa36940a1c0a4a70bff203ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 35/45] fix: Minimize.adam does not modify the starting
 parameters of the caller

The bounds were applied in place.
---
 legume/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..6c5c7b9 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -93,7 +93,7 @@ class Minimize(object):
         Callback        -- function to call at every epoch; the argument that's
                             passed in is the current minimizer state
         """
-        self.params = pstart
+        self.params = np.array(pstart)
         self.bounds = self._parse_bounds(bounds)
         self.Nepochs = Nepochs
         self.disp_p = disp_p
-- 
2.43.0


From 2e15e8ec936d81dba4efd0c34b99ed22436a6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 36/45] fix: Minimize.lbfgs with pass_self=True

The first evaluation of the objective did not get the Minimize object.
---
 legume/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 6c5c7b9..54042e3 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -200,7 +200,8 @@ class Minimize(object):
         self.of_list = []
 
         # Get initial of value
-        of = self.objective(self.params, *args)
+        of = self.objective(self.params, *args,
+                            *((self, ) if pass_self == True else ()))
         self.of_list.append(self._get_value(of))
 
         def of(params, *args, **kwargs):
-- 
2.43.0


From a04f8e18d8ee4afd1a748e20838ee78f91fcaf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 37/45] fix: reject an unknown field name in
 GuidedModeExp.ft_field_xy

---
 legume/gme/gme.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 34e0b81..8c8bd2a 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -2136,6 +2136,9 @@ class GuidedModeExp(object):
                 Ez_ft = bd.dot(self.eps_inv_mat[lind], Dz_ft)
                 return (Ex_ft, Ey_ft, Ez_ft)
 
+        else:
+            raise ValueError("'field' can be 'H', 'D' or 'E'")
+
     def get_field_xy(self,
                      field,
                      kind,
-- 
2.43.0


From d7b02b3ae73394cbc15142f6aa6d853094cfbe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 38/45] fix: D and E fields of PlaneWaveExp satisfy Maxwell's
 equations

---
 legume/pwe/pwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 76d99e0..0088ebe 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -298,14 +298,14 @@ class PlaneWaveExp(object):
 
         elif field.lower() == 'd' or field.lower() == 'e':
             if self.pol == 'te':
-                Dx_ft = 1j / omega * evec * qx
-                Dy_ft = 1j / omega * evec * qy
+                Dx_ft = gnorm / omega * evec * qx
+                Dy_ft = gnorm / omega * evec * qy
                 Dz_ft = bd.zeros(gnorm.shape)
 
             elif self.pol == 'tm':
                 Dx_ft = bd.zeros(gnorm.shape)
                 Dy_ft = bd.zeros(gnorm.shape)
-                Dz_ft = 1j / omega * evec
+                Dz_ft = -gnorm / omega * evec
 
             if field.lower() == 'd':
                 return (Dx_ft, Dy_ft, Dz_ft)
-- 
2.43.0


From 8e27e45d6a71c647b1e92ecc579095d62d2740fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 39/45] fix: reject an unknown field name in
 PlaneWaveExp.ft_field_xy

---
 legume/pwe/pwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 0088ebe..2bdecd2 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -316,6 +316,9 @@ class PlaneWaveExp(object):
                 Ez_ft = bd.dot(self.eps_inv_mat, Dz_ft)
                 return (Ex_ft, Ey_ft, Ez_ft)
 
+        else:
+            raise ValueError("'field' can be 'H', 'D' or 'E'")
+
     def get_field_xy(self,
                      field,
                      kind,
-- 
2.43.0


From 9ceb888ce5860583e5bbb973ae6be687a42653da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 40/45] fix: viz.bands of a PlaneWaveExp with the default
 options

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index d1e0caf..d6297cc 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -209,7 +209,8 @@ def bands(gme,
                         mec=markeredgecolor)
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
-    if cone:
+    # There is no light cone in a 2D simulation
+    if cone and not isinstance(gme, PlaneWaveExp):
         vec_LL = _calculate_LL(gme.kpoints, gme.phc, conv)
         ax.fill_between(X0,
                         vec_LL,
-- 
2.43.0


From 5b30087ecdfb9781b6637b9e7c6cd8760a1e21c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 41/45] fix: keep every reciprocal vector inside the circular
 truncation of oblique lattices

---
 legume/exc/exc.py | 5 +++--
 legume/gme/gme.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 8b9e36d..1928873 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -178,10 +178,11 @@ class ExcitonSchroedEq(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
+        # |ind_i| = |G.a_i|/(2*pi) <= gmax*|a_i| inside the circle
         n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
+            np.ceil(self.gmax * np.linalg.norm(self.phc.lattice.a1)))
         n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+            np.ceil(self.gmax * np.linalg.norm(self.phc.lattice.a2)))
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 8c8bd2a..6de275c 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -212,10 +212,11 @@ class GuidedModeExp(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
+        # |ind_i| = |G.a_i|/(2*pi) <= gmax*|a_i| inside the circle
         n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
+            np.ceil(self.gmax * np.linalg.norm(self.phc.lattice.a1)))
         n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+            np.ceil(self.gmax * np.linalg.norm(self.phc.lattice.a2)))
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From c6bbff3f2da29dd9836859dc24289e852474cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 42/45] fix: cover every periodic copy of a shape in the
 permittivity of oblique cells

---
 legume/phc/layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index d755b2d..c6ace37 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -192,7 +192,9 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
+        # Smallest distance between lattice lines
+        a_p = utils.get_value(self.lattice.ec_area) / max(
+            [np.linalg.norm(a1), np.linalg.norm(a2)])
         nmax = np.int_(
             np.sqrt(
                 np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-- 
2.43.0


From 6552346463b61484de7be501ff5937c70d750872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:43 +0000
Subject: [PATCH 43/45] fix: radiative channels lie in the light cone of the
 effective slab

The guided and radiative modes are those of the slab with the permittivities
selected by eps_eff, but the light cone and the density of states used the
averages of the claddings. With a patterned cladding and eps_eff='background',
freqs_im was of the order of the real part.
---
 legume/gme/gme.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 6de275c..dbee900 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1663,11 +1663,10 @@ class GuidedModeExp(object):
             omr = 2 * np.pi * freqs[kind, im]
             evec = eigvecs[kind][:, im]
             # Reciprocal vedctors within the radiative cone for the claddings
-            indmoder = [bd.argwhere(gk**2 <= \
-                    self.phc.claddings[0].eps_avg*omr**2).ravel(),
-                        bd.argwhere(gk**2 <= \
-                    self.phc.claddings[1].eps_avg*omr**2).ravel()
-                        ]
+            eps_clad = [self.eps_array[0], self.eps_array[-1]]
+            indmoder = [
+                bd.argwhere(gk**2 <= eps * omr**2).ravel() for eps in eps_clad
+            ]
             gkr = [gk[indmode] for indmode in indmoder]
 
             # Coupling constants to TE/TM modes in lower and upper cladding
@@ -1758,8 +1757,8 @@ class GuidedModeExp(object):
                 count += self.modes_numg[kind][im1]
 
             # Density of states of leaky modes
-            rad_dos = [self.phc.claddings[i].eps_avg/bd.sqrt(
-                    self.phc.claddings[i].eps_avg*omr**2 - gkr[i]**2) / \
+            rad_dos = [eps_clad[i]/bd.sqrt(
+                    eps_clad[i]*omr**2 - gkr[i]**2) / \
                     4 / np.pi for i in [0, 1]]
 
             # Store the reciprocal lattice vectors corresponding to the
-- 
2.43.0


From b9ff0e96d0a39777c935987daa438ae3c682391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 44/45] fix: polariton energies do not depend on the phases of
 the photonic eigenvectors

The diamagnetic blocks used the transpose of D, and its real part in the
diagonal blocks, so that the Hopfield matrix was not covariant under a change
of the arbitrary phases of the eigenvectors returned by the photonic
eigenproblem. For structures without inversion symmetry the energies changed.
---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 86f95b1..c66beef 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -194,7 +194,7 @@ class HopfieldPol(object):
         for n_1 in range(self.N_max):
             for n_2 in range(self.N_max):
                 D[n_1, n_2] = bd.sum(
-                    bd.conj(C[n_1, :]) * C[n_2, :] /
+                    C[n_1, :] * bd.conj(C[n_2, :]) /
                     bd.real(exc.eners[kind, :]))
 
         return C, D
@@ -235,7 +235,7 @@ class HopfieldPol(object):
 
         np.fill_diagonal(diag_exc, exc_el)
 
-        diag_phot = diag_phot + 2 * bd.real(D_final_block)
+        diag_phot = diag_phot + 2 * D_final_block
 
         row_0 = bd.hstack(
             (diag_phot, -1j * C_final_block, -2 * D_final_block, -1j * C_final_block))
-- 
2.43.0


From 9c270b184f958f6fef849e82c08284f6e38938be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 45/45] fix: band plots coloured by Q with no point below
 Q_clip

---
 legume/viz.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index d6297cc..5d8e8fd 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -115,7 +115,7 @@ def bands(gme,
                 gme.run_im()
             Q = _calculate_Q(gme.freqs.flatten(),
                              np.array(gme.freqs_im).flatten())
-            Q_max = np.max(Q[Q < Q_clip])
+            Q_max = _max_Q(Q, Q_clip)
 
             p = ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
@@ -137,7 +137,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = _max_Q(Q, Q_clip)
                 edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
@@ -160,7 +160,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = _max_Q(Q, Q_clip)
 
                 p = ax.scatter(X.flatten(),
                                conv * gme.freqs.flatten(),
@@ -1477,6 +1477,15 @@ def _calculate_Q(re_w, im_w):
     return Q
 
 
+def _max_Q(Q, Q_clip):
+    """
+    Upper limit of the quality-factor color scale: the largest
+    value below 'Q_clip', or 'Q_clip' if there is none.
+    """
+    Q = Q[Q < Q_clip]
+    return np.max(Q) if Q.size else Q_clip
+
+
 def _calculate_LL(kpoints, phc, conv):
     """
     Calculates the light line for a
-- 
2.43.0

