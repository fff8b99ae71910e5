From cc87dc5a65cb6ad2a41a9613bf2355a762e040de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 01/42] fix: error queries and plots no longer flip the axes of
 the fit in place

---
 attitude/display/polar.py   | 2 +-
 attitude/orientation/pca.py | 7 ++++---
 attitude/stereonet.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/attitude/display/polar.py b/attitude/display/polar.py
index b83c055..4fad9c4 100644
--- a/attitude/display/polar.py
+++ b/attitude/display/polar.py
@@ -27,7 +27,7 @@ def pole_error(ax, fit, *args, **kwargs):
     ell = ellipse()
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 327df06..04803e2 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -401,8 +401,9 @@ class PCAOrientation(BaseOrientation):
 
     def as_conic(self, level=1):
 
-        if dot(self.axes[2],vector(0,0,1)) < 0:
-            self.axes *= -1
+        axes = self.axes
+        if dot(axes[2],vector(0,0,1)) < 0:
+            axes = -axes
 
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
@@ -416,7 +417,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate ellipse matrix into cartesian
         # plane
-        R = augment(self.axes)
+        R = augment(axes)
         return ell.transform(R)
 
     def as_hyperbola(self, rotated=False):
diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index d73210b..5ce06e3 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -49,7 +49,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     ell = ellipse(**kwargs)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
@@ -129,7 +129,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-- 
2.43.0


From 1f285aaf8de05f0a5eec7d901ad4b78d70fa70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:03 +0000
Subject: [PATCH 02/42] fix: angle between parallel vectors is never NaN

---
 attitude/geom/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index 5ef2bca..0d7675a 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -60,7 +60,9 @@ def angle(v1,v2, cos=False):
     angle will be returned. False by default.
     """
     n = (norm(v1)*norm(v2))
-    _ = dot(v1,v2)/n
+    # Rounding can push the cosine of (anti)parallel vectors
+    # just outside of its domain
+    _ = N.clip(dot(v1,v2)/n, -1, 1)
     return _ if cos else N.arccos(_)
 
 class Plane(N.ndarray):
-- 
2.43.0


From df1c191035546119d58e26ddf8456a8213639a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:05 +0000
Subject: [PATCH 03/42] fix: two-dimensional perpendicular_vector is
 perpendicular

---
 attitude/geom/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index 0d7675a..877b87b 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -97,7 +97,7 @@ def perpendicular_vector(n):
     """
     dim = len(n)
     if dim == 2:
-        return n[::-1]
+        return vector(-n[1],n[0])
     # More complex in 3d
     for ix in range(dim):
         _ = N.zeros(dim)
-- 
2.43.0


From 31224d3049b03113b1848d5eeb27bfda96b048a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:07 +0000
Subject: [PATCH 04/42] fix: horizontal planes have a finite rake

---
 attitude/orientation/pca.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 04803e2..5c824b9 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -225,6 +225,11 @@ class PCAOrientation(BaseOrientation):
         v[-1] = 1
         self._vertical = v
         self.strike = N.cross(self.normal,self._vertical)
+        if len(self.normal) == 3 and not self.strike.any():
+            # The strike of a horizontal plane is arbitrary; use
+            # the one that is reported by `strike_dip`
+            azimuth = N.radians(self.strike_dip()[0])
+            self.strike = -vector(N.sin(azimuth),N.cos(azimuth),0)
         try:
             self.dip_dr = normalize(N.cross(self.strike,self.normal))
         except ValueError:
-- 
2.43.0


From abe07ab681495b9a4f6f49c015002e7f1c2e9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:09 +0000
Subject: [PATCH 05/42] fix: Regression centers 3 x n coordinates along the
 right axis

---
 attitude/orientation/linear/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/linear/regression.py b/attitude/orientation/linear/regression.py
index 78c3740..4e4a726 100644
--- a/attitude/orientation/linear/regression.py
+++ b/attitude/orientation/linear/regression.py
@@ -22,9 +22,10 @@ class Regression(object):
         Solves plane equation Z = a(C[0])+b(C[1])+c by solving linear equation Cm=Z where m=[a,b,c]
         C and Z are the dependent and independent variables, respectively.
         """
-        coordinates = centered(N.array(coordinates))
+        coordinates = N.array(coordinates)
         if len(coordinates[0]) > 3:
             coordinates = N.swapaxes(coordinates, 0, 1)
+        coordinates = centered(coordinates)
 
         self.C = add_ones(coordinates[:,0:2])
         self.Z = coordinates[:,-1]
-- 
2.43.0


From 66906821eb1092a03653bc5a314e542e5c000c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:12 +0000
Subject: [PATCH 06/42] fix: coordinates.cartesian inverts
 coordinates.spherical

---
 attitude/coordinates/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/attitude/coordinates/__init__.py b/attitude/coordinates/__init__.py
index a407156..c980d80 100644
--- a/attitude/coordinates/__init__.py
+++ b/attitude/coordinates/__init__.py
@@ -9,11 +9,11 @@ def spherical(coordinates):
     return N.column_stack((r,theta,phi))
 
 def cartesian(spherical):
-    r,theta,phi = spherical
+    r,theta,phi = N.transpose(spherical)
     z = r*N.cos(theta)
     zc = r*N.sin(theta)
-    x = zc*N.sin(phi)
-    y = zc*N.cos(phi)
+    x = zc*N.cos(phi)
+    y = zc*N.sin(phi)
     return x,y,z
 
 def centered(coordinates):
-- 
2.43.0


From 11868fc501bebf8a3e3fd8a06b741045707514d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 07/42] fix: rotations.transform uses the matrix exponential

---
 attitude/coordinates/rotations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 10d30e5..6830cb3 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -6,7 +6,8 @@ Prior art: http://bl.ocks.org/ivyywang/7c94cb5a3accd9913263
 from __future__ import division
 import numpy as N
 from mplstereonet import stereonet_math, stereonet2xyz, xyz2stereonet
-from ..geom.util import angle, vector, dot
+from scipy.linalg import expm
+from ..geom.util import angle, vector, dot, perpendicular_vector
 
 def transform(v1, v2):
     """
@@ -17,13 +18,16 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
+    if not x.any():
+        # Parallel vectors: any perpendicular axis will do
+        x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
 
     A = N.array([
         [0, -x[2], x[1]],
         [x[2], 0, -x[0]],
         [-x[1], x[0], 0]])
-    R = N.exp(A*theta)
+    R = expm(A*theta)
 
     return R
 
-- 
2.43.0


From 24fce1201bfbe64c4065193d13dad57850041a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:57 +0000
Subject: [PATCH 08/42] fix: major axes and angular shadow of conics of any
 size and position

---
 attitude/geom/conics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 1245220..4823714 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -3,7 +3,7 @@ from __future__ import division
 import numpy as N
 
 from .util import (dot, vector, augment, Plane,
-                   angle, perpendicular_vector)
+                   angle, perpendicular_vector, unit_vector)
 
 def angle_subtended(ell, **kwargs):
     """
@@ -83,8 +83,9 @@ class Conic(N.ndarray):
         """
         _ = ell[:-1,:-1]
         U,s,V = N.linalg.svd(_)
-        scalar = -(ell.sum()-_.sum())
-        return N.sqrt(s*scalar)*V
+        # Value of the conic at its center
+        scalar = -ell.solve(augment(ell.center()))
+        return N.sqrt(scalar/s)[:,N.newaxis]*V
 
     def __type(self):
         return N.linalg.det(self[:-1,:-1])
@@ -150,7 +151,7 @@ class Conic(N.ndarray):
 
         if axes is None:
             n = plane.normal()
-            v1 = perpendicular_vector(n)
+            v1 = unit_vector(perpendicular_vector(n))
             if dim == 3:
                 v2 = N.cross(v1,n)
                 axes = (v1,v2)
-- 
2.43.0


From 8b58f33b31232f15e72a2bfaaf6177640b37a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:59 +0000
Subject: [PATCH 09/42] fix: angle_subtended measures distances from the
 viewpoint

---
 attitude/geom/conics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 4823714..36bb5e9 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -16,6 +16,10 @@ def angle_subtended(ell, **kwargs):
         viewpoint   Defaults to origin
     """
     return_tangent = kwargs.pop('tangent',False)
+    viewpoint = kwargs.pop('viewpoint',None)
+    if viewpoint is not None:
+        # Distances are measured from the origin
+        ell = ell.translate(-N.array(viewpoint))
 
     con, transform, offset = ell.projection(**kwargs)
     v = N.linalg.norm(N.array(con.major_axes()),axis=1)
-- 
2.43.0


From 9bee95b6b309e6040f8e3af381001011bd9c5cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:01 +0000
Subject: [PATCH 10/42] fix: plot_interactive escapes the data that it embeds
 in a page

---
 attitude/display/nbextension.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 45a40da..178d80a 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -32,7 +32,7 @@ def init_notebook_mode():
 __TEMPLATE__ = """
 <div id='a__<<<hash>>>'></div>
 <script type='text/javascript'>
-  var data=JSON.parse('<<<data>>>');
+  var data=JSON.parse(<<<data>>>);
   attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
 </script>
 """
@@ -44,9 +44,11 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    data = dumps(attitudes)
-    script = __TEMPLATE__.replace("<<<data>>>",data)
+    # Escape JSON for inclusion as a javascript string literal
+    # within an HTML script element
+    data = dumps(dumps(attitudes)).replace("<","\\u003c")
 
     classname = "A"+str(uuid4())
-    script = script.replace("<<<hash>>>",classname)
+    script = __TEMPLATE__.replace("<<<hash>>>",classname)
+    script = script.replace("<<<data>>>",data)
     display(HTML(script))
-- 
2.43.0


From 751958c4e6f7af4b5bfc1b827f97b535a2d87e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:29 +0000
Subject: [PATCH 11/42] fix: a failed group fit leaves its would-be members
 untouched

---
 attitude/orientation/grouped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e228ac2..82774e1 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -19,13 +19,16 @@ class GroupedOrientation(PCAOrientation):
         for o in orientations:
             if hasattr(o,'members'):
                 raise GroupedPlaneError("Cannot group already-grouped planes")
-            o.member_of = self
 
         self.members = orientations
 
         super().__init__(array,**kwargs)
         self.mean = all_values.mean(axis=0)
 
+        # Only claim members once the group has been successfully created
+        for o in orientations:
+            o.member_of = self
+
     def to_mapping(self,**values):
         values.setdefault('centered_array',None)
         values['members'] = [a.hash for a in self.members]
-- 
2.43.0


From a19b8f5f74dae8161dd95ae5f084ef49e6851c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:32 +0000
Subject: [PATCH 12/42] fix: create_groups keeps membership of copied and
 reordered groups intact

---
 attitude/orientation/grouped.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index 82774e1..443b842 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -35,6 +35,23 @@ class GroupedOrientation(PCAOrientation):
         return super().to_mapping(**values)
 
 
+def copy_orientations(orientations):
+    """
+    Copy a list of orientations, linking copies of groups to
+    copies of their members.
+    """
+    copies = {}
+    def copy_of(o):
+        if id(o) not in copies:
+            copies[id(o)] = copy(o)
+        return copies[id(o)]
+
+    orientations = [copy_of(o) for o in orientations]
+    for o in orientations:
+        if hasattr(o, 'members'):
+            o.members = tuple(copy_of(a) for a in o.members)
+    return orientations
+
 def create_groups(orientations, *groups, **kwargs):
     """
     Create groups of an orientation measurement dataset
@@ -43,11 +60,12 @@ def create_groups(orientations, *groups, **kwargs):
     # Copy all datasets to be safe (this could be bad for
     # memory usage, so can be disabled).
     if kwargs.pop('copy', True):
-        orientations = [copy(o) for o in orientations]
+        orientations = copy_orientations(orientations)
 
+    # Get rid of and recreate group membership
     for o in orientations:
-        # Get rid of and recreate group membership
         o.member_of = None
+    for o in orientations:
         try:
             grouped += o.members
             for a in o.members:
-- 
2.43.0


From bf157f1e7cfc35d810ed730038fab2be0775721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:34 +0000
Subject: [PATCH 13/42] fix: create_groups rejects planes claimed by two groups
 before changing anything

---
 attitude/orientation/grouped.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index 443b842..ea4eee6 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -62,16 +62,8 @@ def create_groups(orientations, *groups, **kwargs):
     if kwargs.pop('copy', True):
         orientations = copy_orientations(orientations)
 
-    # Get rid of and recreate group membership
-    for o in orientations:
-        o.member_of = None
     for o in orientations:
-        try:
-            grouped += o.members
-            for a in o.members:
-                a.member_of = o
-        except AttributeError:
-            pass
+        grouped += getattr(o, 'members', ())
 
     def find(uid):
         try:
@@ -79,13 +71,26 @@ def create_groups(orientations, *groups, **kwargs):
             if val in grouped:
                 raise GroupedPlaneError("{} is already in a group."
                                            .format(val.hash))
+            if hasattr(val,'members'):
+                raise GroupedPlaneError("Cannot group already-grouped planes")
+            grouped.append(val)
             return val
         except StopIteration:
             raise KeyError("No measurement of with hash {} found"
                            .format(uid))
 
-    for uid_list in groups:
-        vals = [find(uid) for uid in uid_list]
+    # Find members of all groups before changing anything
+    new_groups = [[find(uid) for uid in uid_list]
+                  for uid_list in groups]
+
+    # Get rid of and recreate group membership
+    for o in orientations:
+        o.member_of = None
+    for o in orientations:
+        for a in getattr(o, 'members', ()):
+            a.member_of = o
+
+    for vals in new_groups:
         o = GroupedOrientation(*vals, **kwargs)
         orientations.append(o)
 
-- 
2.43.0


From e2046e7226a27b7b1d1041daca611331e5afffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:23 +0000
Subject: [PATCH 14/42] fix: DEM helpers work with immutable shapely 2
 geometries

---
 attitude/helpers/dem.py           |  2 +-
 attitude/helpers/interpolation.py | 16 ++++------------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 881198d..cfe1146 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -7,7 +7,7 @@ from rasterio.features import rasterize, geometry_mask
 from affine import Affine
 from subdivide import subdivide
 
-from shapely.geometry import shape, mapping, asShape
+from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
 from .interpolation import bilinear
diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index 256afa8..f137b6e 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -16,14 +16,10 @@ def __factory__(order):
         """Interpolates geometries to the specified order"""
         import numpy as N
         from scipy.ndimage import map_coordinates
-        from shapely.geometry import shape, mapping, asLineString
 
         if hasattr(array, 'mask'):
             array = array.astype(float).filled(N.nan)
 
-        def point_handler(coords):
-            return line_handler([coords])[0]
-
         def line_handler(coords):
             coordinates = N.array(coords)
             aligned = (coordinates - 0.5)[:,0:2].T[::-1]  # align fractional pixel coordinates to array
@@ -34,14 +30,10 @@ def __factory__(order):
                 coordinates = N.hstack((coordinates,z.reshape(len(z),1)))
             return list(map(tuple, coordinates))
 
-        if geometry.geom_type == "Point":
-            geometry.coords  = point_handler(geometry.coords)
-        elif geometry.geom_type == "MultiLineString":
-            return MultiLineString([line_handler(g.coords) for g in geometry])
-        else:
-            geometry.coords  = line_handler(geometry.coords)
-
-        return geometry
+        if geometry.geom_type == "MultiLineString":
+            return MultiLineString([line_handler(g.coords) for g in geometry.geoms])
+        # Geometries are immutable in shapely 2
+        return type(geometry)(line_handler(geometry.coords))
     return interpolate
 
 nearest = __factory__(0)
-- 
2.43.0


From 154adae14a73492fdd0663b5dc8797dceba1b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:42 +0000
Subject: [PATCH 15/42] fix: extract_line reads the pixels that its
 interpolation needs

---
 attitude/helpers/dem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index cfe1146..3bdcd1e 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -83,8 +83,10 @@ def extract_line(geom, dem, **kwargs):
     # are outside of footprint of DEM
 
     coords_px = coords_array(px)
-    mins = N.floor(coords_px.min(axis=0))
-    maxs = N.ceil(coords_px.max(axis=0))
+    # Interpolation needs the pixels centered on both sides of each point
+    mins = N.floor(coords_px.min(axis=0)-0.5).clip(0)
+    maxs = N.ceil(coords_px.max(axis=0)+0.5)
+    maxs = N.minimum(maxs, dem.shape[::-1])
 
     window = tuple((int(mn),int(mx))
         for mn,mx in zip(mins[::-1],maxs[::-1]))
-- 
2.43.0


From ed6bc37dbd6b2febf9797bad8afbca64819c7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:36 +0000
Subject: [PATCH 16/42] fix: hyperbolic_errors works for two-dimensional axes
 without viewing axes

---
 attitude/display/hyperbola.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index 4e4feb9..1a74d80 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -75,6 +75,8 @@ def hyperbolic_errors(hyp_axes, xvals,
         h1 = hyp.slice(p, axes=axes)[0]
     else:
         # We have a 2d geometry
+        if axes is None:
+            axes = N.identity(2)
         h1 = hyp
 
     # Major axes of the conic sliced in the requested viewing
-- 
2.43.0


From 6581eb7ebb7ad7fc678aff637bd92129f864b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:06 +0000
Subject: [PATCH 17/42] fix: iterative_plane_errors honours the error level

---
 attitude/stereonet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 5ce06e3..79902da 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -173,7 +173,7 @@ def iterative_plane_errors(axes,covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     scales = dict(upper=1,lower=-1,nominal=0)
-    c1 = scales[sheet]*2 # We double the scale of errors since they are symmetrical
+    c1 = scales[sheet]*level*2 # We double the scale of errors since they are symmetrical
     c1 *= -1 # We assume upper hemisphere
     if axes[2,2] < 0:
         c1 *= -1
-- 
2.43.0


From 941ae76e405b597a8757996d74f428a89908d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:25 +0000
Subject: [PATCH 18/42] fix: pole error ellipses honour the error level

---
 attitude/stereonet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 79902da..dc92416 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -53,7 +53,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-    c1 = 2
+    c1 = 2*level
     axis_lengths = d[:2]
     f = N.linalg.norm(
         ell*axis_lengths,axis=1)
@@ -133,7 +133,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-    c1 = 2
+    c1 = 2*level
 
     def sdot(a,b):
         return sum([i*j for i,j in zip(a,b)])
-- 
2.43.0


From d1b6c143b53798418875340d27f13f7795f4bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:46 +0000
Subject: [PATCH 19/42] fix: sph2cart converts arrays of positions

---
 attitude/stereonet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index dc92416..7041734 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -26,7 +26,7 @@ def ellipse(n=1000, adaptive=False):
 def sph2cart(lat,lon):
     _ = stereonet_math.sph2cart(lat,lon)
     #val = N.array(_).flatten()
-    val = N.roll(_,-1)
+    val = N.roll(_,-1,axis=0)
     val[:-1] *= -1
     return val
 
-- 
2.43.0


From 8fd6e0bc137a4763ffcb5b0d41697a222289847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:27 +0000
Subject: [PATCH 20/42] fix: compose_affine works on Python 3

---
 attitude/orientation/pca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 5c824b9..627a9c4 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -6,6 +6,7 @@ from scipy.sparse import bsr_matrix
 from scipy.linalg import lu
 from scipy.sparse.linalg import svds
 from scipy.integrate import quad
+from functools import reduce
 from itertools import chain
 from ..coordinates import centered
 from .base import BaseOrientation, rotation
-- 
2.43.0


From 6ff92f5ea2b5bbd6af66ca491f740f0397b06e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:19 +0000
Subject: [PATCH 21/42] fix: extract_line accepts lines with elevations

---
 attitude/helpers/dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 3bdcd1e..c3e50e1 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -65,7 +65,7 @@ def extract_line(geom, dem, **kwargs):
     coords_in = coords_array(geom)
 
     # Transform geometry into pixels
-    f = lambda *x: ~dem.transform * x
+    f = lambda *x: ~dem.transform * (x[0],x[1])
     px = transform(f,geom)
 
     # Subdivide geometry segments if option is given
-- 
2.43.0


From 22f2b48517b5a81890bc6e96f635a9bdafca83c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:56 +0000
Subject: [PATCH 22/42] fix: extract_line subdivides lines with shapely 2

---
 attitude/helpers/dem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index c3e50e1..0f0b2dc 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -5,8 +5,8 @@ import rasterio
 import rasterio.env
 from rasterio.features import rasterize, geometry_mask
 from affine import Affine
-from subdivide import subdivide
 
+from shapely import segmentize
 from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
@@ -71,7 +71,7 @@ def extract_line(geom, dem, **kwargs):
     # Subdivide geometry segments if option is given
     interval = kwargs.pop('subdivide', 1)
     if interval is not None:
-        px = subdivide(px, interval=interval)
+        px = segmentize(px, interval)
 
     # Transform pixels back to geometry
     # to capture subdivisions
-- 
2.43.0


From 51a2be7a0e31e69dd9772b9c635b90117fe46140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:05 +0000
Subject: [PATCH 23/42] fix: interpolation between integer pixels is not
 truncated

---
 attitude/helpers/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index f137b6e..e20f931 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -19,6 +19,9 @@ def __factory__(order):
 
         if hasattr(array, 'mask'):
             array = array.astype(float).filled(N.nan)
+        else:
+            # interpolated values of integer rasters are not integers
+            array = N.asarray(array, dtype=float)
 
         def line_handler(coords):
             coordinates = N.array(coords)
-- 
2.43.0


From 11ae529f6f46dfcff3841da0edf8f5932a4c08cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:29 +0000
Subject: [PATCH 24/42] fix: the notebook finds the viewer library

---
 attitude/display/lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/lib b/attitude/display/lib
index 25a333a..64a739a 120000
--- a/attitude/display/lib
+++ b/attitude/display/lib
@@ -1 +1 @@
-../../js-frontend/lib
\ No newline at end of file
+../../frontend/packages/attitude/lib
\ No newline at end of file
-- 
2.43.0


From 30e8d17c1caf9ce7ab5569e98797229b13d0847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 25/42] fix: the viewer's computeCentroidAverage used an
 undefined name

It raised ReferenceError on every call: d3 is not imported, sum is.
---
 frontend/packages/attitude/src/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/util.ts b/frontend/packages/attitude/src/util.ts
index e2bf71b..bcafa01 100644
--- a/frontend/packages/attitude/src/util.ts
+++ b/frontend/packages/attitude/src/util.ts
@@ -33,7 +33,7 @@ const computeCentroidAverage = function(planes){
     return d.center.map(a => a*len);
   });
 
-  const overallCenter = [0, 1, 2].map(i => d3.sum(weights, d => d[i]/totalLength));
+  const overallCenter = [0, 1, 2].map(i => sum(weights, d => d[i]/totalLength));
   return overallCenter;
 };
 
-- 
2.43.0


From e6f3d2313b74b283ee339c3b1aa695fba86b6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 26/42] fix: error ellipses of level 0 carry their own level

cloneOptions replaced falsy new options by the old ones, so that level 0 of
a list of levels became the whole list.
---
 frontend/packages/attitude/src/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/util.ts b/frontend/packages/attitude/src/util.ts
index bcafa01..135f1f8 100644
--- a/frontend/packages/attitude/src/util.ts
+++ b/frontend/packages/attitude/src/util.ts
@@ -11,7 +11,7 @@ import {sum} from 'd3-array';
 const cloneOptions = function(obj, newProps){
   const a = {};
   for (let k in obj) {
-    a[k] = newProps[k] || obj[k];
+    a[k] = newProps[k] != null ? newProps[k] : obj[k];
   }
   return a;
 };
-- 
2.43.0


From 6774a76622ac42c155d59eb3385a9c48af447071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 27/42] fix: the viewer's girdles and error ellipses are closed

The last point was not the first one: nominal planes were drawn with a gap,
and polygons lost a vertex, since d3 takes the last point of a ring to be a
repetition of the first.
---
 frontend/packages/attitude/src/math.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/math.ts b/frontend/packages/attitude/src/math.ts
index 9765816..7320527 100644
--- a/frontend/packages/attitude/src/math.ts
+++ b/frontend/packages/attitude/src/math.ts
@@ -56,7 +56,7 @@ const ellipse = function (opts) {
     a1.reverse();
 
     // Opposite of first
-    return [...angles, [0, a], ...a1];
+    return [...angles, [0, a], ...a1, angles[0]];
   };
 
   return ellAdaptive;
-- 
2.43.0


From 5127248d8da4ea83ff5a4900e262dfa36507a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 28/42] fix: errorSurface leaves the error curves it is given
 as they are

It reversed the upper (and sometimes the lower) curve in place, so that a
second surface made of the same errors had both rings wound alike.
---
 frontend/packages/attitude/src/functions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index 78a2d06..ab85626 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -24,7 +24,7 @@ const createFeature = (type, coordinates) => ({
 const createErrorSurface = function (d, baseData = null) {
   // Function that turns orientation
   // objects into error surface
-  const e = [d.lower, d.upper.reverse()];
+  const e = [[...d.lower], [...d.upper].reverse()];
 
   let f = createFeature("Polygon", e);
   if (!geoContains(f, d.nominal[0])) {
-- 
2.43.0


From 51eed8b86e6cec51ec49e793632cc26a0d8ecde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 29/42] fix: drawing a plane does not turn the normal in its
 data

---
 frontend/packages/attitude/src/functions.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index ab85626..517f2fc 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -55,7 +55,7 @@ const createNominalPlane = function (d, baseData = null) {
 
 const flipAxesIfNeeded = function (axes) {
   if (axes[2][2] < 0) {
-    axes[2] = axes[2].map((e) => -e);
+    return [axes[0], axes[1], axes[2].map((e) => -e)];
   }
   return axes;
 };
-- 
2.43.0


From ab792513879773bad70d31436c926b7cd2820ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 30/42] fix: error hyperbolas do not depend on the sign of the
 major axis

The angle of the axis in the horizontal plane lost its sign, so that axes
pointing south were taken as their mirror images.
---
 frontend/packages/attitude/src/hyperbola.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 77574d5..c3387e4 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -92,7 +92,7 @@ const getRatios = function (x, y) {
 const __planeAngle = function (axes, angle) {
   // Get angle of the plane from the major axes
   const a0 = axes.toArray()[0];
-  return angle - M.acos(vecAngle([a0[0], a0[1], 0], [1, 0, 0]));
+  return angle - Math.atan2(a0[1], a0[0]);
 };
 
 const createTransform = function (
-- 
2.43.0


From 750ee49cecd61c678a31e8f1247ee3a455afc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:38 +0000
Subject: [PATCH 31/42] fix: the side view's horizontal scale fits the data

The extent was set to the element factory h instead of the distance, so the
scale became NaN.
---
 frontend/packages/notebook-ui/src/components/side-view.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 16c8211..493e418 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -61,7 +61,7 @@ class SideViewComponent extends React.Component {
       }
       const hyp = Math.hypot(x, y);
       if (hyp > xsize) {
-        xsize = h;
+        xsize = hyp;
       }
 
       p.inGroup = false;
-- 
2.43.0


From f4907bf8737ba886476dd3e4d56b8f2e4d390fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:52 +0000
Subject: [PATCH 32/42] fix: PlaneData computes the mean of its points

The imported function was hidden by the argument of the same name, so that
a plane given as points alone raised TypeError.
---
 frontend/packages/attitude/src/hyperbola.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index c3387e4..e463040 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -6,7 +6,6 @@
  */
 import M from "mathjs";
 import Q from "quaternion";
-import { mean } from "d3-array";
 import { line } from "d3-shape";
 import * as d3 from "d3";
 import "d3-jetpack";
@@ -500,7 +499,7 @@ class PlaneData {
     }
     //# Extract mean of data on each axis ##
     if (this.mean == null) {
-      this.mean = [0, 1, 2].map((i) => mean(this.array, (d) => d[i]));
+      this.mean = [0, 1, 2].map((i) => d3.mean(this.array, (d) => d[i]));
     }
     if (this.centered == null) {
       this.centered = this.array.map((d) => M.subtract(d, this.mean));
-- 
2.43.0


From 7aa171caa3863fae58fce9e37ea5ca2c70f7f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:00 +0000
Subject: [PATCH 33/42] fix: AttitudeUI calls super() before using this

---
 frontend/packages/notebook-ui/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index df3c4ad..b9e1b5e 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -45,10 +45,10 @@ class AttitudeUI extends React.Component {
     };
   }
   constructor(props) {
+    super(props);
     this.getData = this.getData.bind(this);
     this.onStereonetRotate = this.onStereonetRotate.bind(this);
     this.onHover = this.onHover.bind(this);
-    super(props);
     this.state = {
       showGroups: true,
       azimuth: 0,
-- 
2.43.0


From 3da4adff47eef2a15ffc6722de9ed7c1df5c4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:00 +0000
Subject: [PATCH 34/42] fix: a changed selection is a new list, so a view
 zoomed to it is redrawn

---
 frontend/packages/notebook-ui/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index b9e1b5e..580b47c 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -164,7 +164,7 @@ class AttitudeUI extends React.Component {
   }
 
   updateSelection(ids) {
-    const collectedIDs = this.state.selection;
+    const collectedIDs = [...this.state.selection];
     for (let id of Array.from(ids)) {
       if (id.members != null && !this.props.allowGroupSelection) {
         continue;
-- 
2.43.0


From d32ad68309c24b6a0c70419e699cc9eb47171e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:00 +0000
Subject: [PATCH 35/42] fix: hovering a group whose members are not shown

---
 frontend/packages/notebook-ui/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index 580b47c..0384b08 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -61,7 +61,8 @@ class AttitudeUI extends React.Component {
     const { attitudes } = this.props;
     const out = [];
     for (var o of Array.from(list)) {
-      out.push(attitudes.find((d) => o === d.uid));
+      const found = attitudes.find((d) => o === d.uid);
+      if (found != null) out.push(found);
     }
     return out;
   }
-- 
2.43.0


From 3de79341e3053631e0f60c9a5f87c74b6a4776d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:47 +0000
Subject: [PATCH 36/42] fix: labels and listeners follow a stereonet that is
 recentred

---
 frontend/packages/attitude/src/stereonet/index.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 775272e..f9c328c 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -367,6 +367,7 @@ function Stereonet(o1 = {}) {
       c = [0, 90];
     }
     proj.rotate(c);
+    dispatch.call(uid + "rotate", f);
     if (el != null) {
       return __redraw();
     }
-- 
2.43.0


From 77c17d8e93518f2092739e48d6903cf551aca387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:47 +0000
Subject: [PATCH 37/42] fix: several stereonets on one page can each be dragged

---
 frontend/packages/attitude/src/stereonet/interaction.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/interaction.ts b/frontend/packages/attitude/src/stereonet/interaction.ts
index 872c2f3..78760d6 100644
--- a/frontend/packages/attitude/src/stereonet/interaction.ts
+++ b/frontend/packages/attitude/src/stereonet/interaction.ts
@@ -48,6 +48,6 @@ export default (function(stereonet){
 
   el.on('mousedown', mousedown);
   return select(window)
-    .on("mousemove", mousemove)
-    .on("mouseup", mouseup);
+    .on(`mousemove.${stereonet.uid()}`, mousemove)
+    .on(`mouseup.${stereonet.uid()}`, mouseup);
 });
-- 
2.43.0


From f6487bcafd3a3dac3f3ff0bc98d779c201181722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:02 +0000
Subject: [PATCH 38/42] fix: error_ellipse of a planar fit works in three
 dimensions

_ellipse returned homogeneous (4-column) vectors, so that error_ellipse
raised ValueError for every fit.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 627a9c4..5d68b6e 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -452,7 +452,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate major axes into 3d space
         axs_ = N.append(ax,N.zeros((2,1)),axis=1)
-        axs = dot(axs_,matrix[:3])
+        axs = dot(axs_,matrix[:,:3])
         u = N.linspace(0,2*N.pi,1000)
 
         # Get a bundle of vectors defining cone
-- 
2.43.0


From f22e35d9a008323797524f03a8ea261764318190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:04 +0000
Subject: [PATCH 39/42] fix: the error ellipsoid of a fit grows with its level

The error level divided the semi-axes of the ellipsoid of as_conic, and
so of the error ellipse drawn around the pole, where it multiplies them
everywhere else.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 5d68b6e..85ed7f0 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -414,7 +414,7 @@ class PCAOrientation(BaseOrientation):
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
         ell = N.identity(4)
-        ell[idx] = 1/cov[idx]*level**2 #cov*level**2#
+        ell[idx] = 1/(cov[idx]*level**2)
         ell[3,3] = -1
         ell = conic(ell)
 
-- 
2.43.0


From c999f57ad311fa221687e8f8c1f3c6e967330c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:39 +0000
Subject: [PATCH 40/42] fix: resize the mask of an error hyperbola when it is
 redrawn

The length of the plane that is shown depends on the viewpoint, but the
mask that fades the outline was sized only when first drawn.
---
 frontend/packages/attitude/src/hyperbola.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index e463040..f8029b8 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -298,13 +298,12 @@ rotate(${v})`
     let mid = null;
     if (!mask.node()) {
       mid = uuid.v4();
-      mask = hyp
-        .append("mask")
-        .attr("id", mid)
-        .attrs(masksz)
-        .append("rect")
-        .attrs({ ...masksz, fill: "url(#gradient)" });
+      mask = hyp.append("mask").attr("id", mid);
+      mask.append("rect").attr("fill", "url(#gradient)");
     }
+    // The length shown depends on the viewpoint
+    mask.attrs(masksz);
+    mask.select("rect").attrs(masksz);
     if (mid == null) {
       mid = mask.attr("id");
     }
-- 
2.43.0


From 2640150978633b71c74621dbfa9df8daf1158e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:37 +0000
Subject: [PATCH 41/42] fix: unmark planes in the side view when the pointer
 leaves

With nothing pointed at (hovered null) the last marked planes stayed marked.
---
 frontend/packages/notebook-ui/src/components/side-view.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 493e418..3659d38 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -240,10 +240,7 @@ class SideViewComponent extends React.Component {
 
   updateHovered() {
     const { hovered } = this.props;
-    if (hovered == null) {
-      return;
-    }
-    const hoveredIDs = hovered.map((d) => d.uid);
+    const hoveredIDs = (hovered ?? []).map((d) => d.uid);
     return this.planeContainer
       .selectAll("path.trace")
       .attr("stroke", function (v) {
-- 
2.43.0


From b99be282c9fa5cc36cab43419dc7e3dd72c6d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:51 +0000
Subject: [PATCH 42/42] fix: a group that cannot be created leaves the other
 groups of the call uncreated

---
 attitude/orientation/grouped.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index ea4eee6..628fa6f 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -83,6 +83,20 @@ def create_groups(orientations, *groups, **kwargs):
     new_groups = [[find(uid) for uid in uid_list]
                   for uid_list in groups]
 
+    # Create all groups before changing anything
+    owners = [(o, getattr(o, 'member_of', None))
+              for vals in new_groups for o in vals]
+    try:
+        new_groups = [GroupedOrientation(*vals, **kwargs)
+                      for vals in new_groups]
+    except Exception:
+        for o, owner in owners:
+            o.member_of = owner
+        raise
+
+    for o in new_groups:
+        orientations.append(o)
+
     # Get rid of and recreate group membership
     for o in orientations:
         o.member_of = None
@@ -90,10 +104,6 @@ def create_groups(orientations, *groups, **kwargs):
         for a in getattr(o, 'members', ()):
             a.member_of = o
 
-    for vals in new_groups:
-        o = GroupedOrientation(*vals, **kwargs)
-        orientations.append(o)
-
     return orientations
 
 def disable_orientations(orientations, *to_disable):
-- 
2.43.0

