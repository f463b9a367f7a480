From 32224671b8947d32b06de422bc89fd8a93e04133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 01/76] fix: check_chain skipped the last pair of topology
 matrices

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..32d6f54 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -199,7 +199,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From 363e4c85b0ddf6831aa4bc38ce4803c42127fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:02 +0000
Subject: [PATCH 02/76] fix: relative_parity lost loose elements next to other
 components

---
 pycomplex/topology/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 32d6f54..472b168 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -178,11 +178,10 @@ class BaseTopology(object):
         # into clauses constraining the relative orientation of n-elements
         clauses = ((inc.indices + 1) * inc.data).reshape(-1, 2)
         if not len(clauses):
-            # FIXME: this is needed for loose n-elements;
-            # but what about loose disjoint n-element plus other connection component?
-            # would prob fail; need to handle remapping back from n-elements lost in interior filtering
+            # all n-elements are loose
             return self.chain(-1)
-        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist())
+        # pass number of variables explicitly, such that elements without an interior boundary are not lost
+        orientation = pycosat.solve(clauses.tolist() + (-clauses).tolist(), vars=inc.shape[1])
         if orientation == 'UNSAT':
             raise ValueError('Topology is a non-orientable manifold.')
 
-- 
2.43.0


From f4f1bd68d1ddf59e9abbc2e79b45b4fd5648ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:23 +0000
Subject: [PATCH 03/76] fix: boundary lost the orientation of its elements
 relative to the parent, breaking the dual chain complex

---
 pycomplex/topology/primal.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pycomplex/topology/primal.py b/pycomplex/topology/primal.py
index 3d2e041..3350108 100755
--- a/pycomplex/topology/primal.py
+++ b/pycomplex/topology/primal.py
@@ -197,10 +197,6 @@ class PrimalTopology(BaseTopology):
             Boundary topology, with attribute parent_idx referring back to the parent elements
             if the topology is closed, None is returned
         """
-        # FIXME: rather than using from_elements, a direct subset selection would be preferable
-        # shouldnt be too hard; just find chains on all elements, select subsets, and remap vertex indices
-        # FIXME: not sure boundary orientation is even preserved in current implementation
-        # in practice, this appears to be very much the case
         if not self.is_oriented:
             raise ValueError('Cannot get the boundary of a non-oriented manifold')
 
@@ -211,15 +207,23 @@ class PrimalTopology(BaseTopology):
             # topology is closed
             return None
 
-        # construct boundary
-        boundary_elements = self.elements[-2][b_idx]
-
-        # mapping is a list of parent vertex indices, for each boundary vertex
-        mapping, inverse = np.unique(boundary_elements.flatten(), return_inverse=True)
-        boundary_elements = inverse.reshape(boundary_elements.shape).astype(index_dtype)
-
-        boundary = self.boundary_type().from_elements(boundary_elements)
-        boundary.parent_idx = self.find_correspondence(boundary, mapping)
+        # select the elements on the boundary directly, rather than reconstructing them from boundary_elements,
+        # such that the boundary inherits the orientation of its elements of all dimensions from its parent
+        parent_idx = [b_idx]
+        for b in self._boundary[-2::-1]:
+            parent_idx.append(np.unique(b[parent_idx[-1]]))
+        parent_idx = [i.astype(index_dtype) for i in parent_idx[::-1]]
+
+        def remap(i, elements):
+            """translate parent indices into boundary indices"""
+            return np.searchsorted(i, elements).astype(index_dtype)
+
+        boundary = self.boundary_type()(
+            elements=[remap(parent_idx[0], e[i]) for i, e in zip(parent_idx, self.elements)],
+            boundary=[remap(i, b[j]) for i, j, b in zip(parent_idx[:-1], parent_idx[1:], self._boundary)],
+            orientation=[o[j] for j, o in zip(parent_idx[1:], self._orientation)],
+        )
+        boundary.parent_idx = parent_idx
         boundary.parent = self
         return boundary
 
-- 
2.43.0


From 7f6c902afaa4335d6db4d17b1cd74604a130312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 04/76] fix: dual edges of a 1d topology with boundary did not
 close

---
 pycomplex/topology/dual.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..c6ef7d4 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -165,7 +165,11 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = list(self.primal.selector_boundary)
+        if self.n_dim == 1:
+            # boundary vertices cannot signal their orientation themselves, so it needs to be encoded in the glue
+            orientation = T[0] * self.primal.chain(n=1, fill=1)
+            S[0] = S[0] * scipy.sparse.diags(-orientation, dtype=sign_dtype)
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From d3261244c8c3b3f38c0fb1f443f4ff9a473e3ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 05/76] fix: connectivity of elements sharing several boundary
 elements could cancel

---
 pycomplex/topology/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 472b168..70adbee 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -30,7 +30,7 @@ class BaseTopology(object):
         ndarray, [n_vertices], index_dtype
         """
         # convert to column format for fast slicing from the right
-        TnN = self.matrix(-1).tocsc()
+        TnN = np.abs(self.matrix(-1)).tocsc()
         # iterate over the N-elements of each 0-element
         T0N = self.accumulated_operators_N()[0].T.tocoo()
         I0, IN = T0N.row, T0N.col
@@ -101,7 +101,7 @@ class BaseTopology(object):
         n_components : int
         labels : ndarray, [n_elements[-1]], int
         """
-        TnN = self.matrix(-1)
+        TnN = np.abs(self.matrix(-1))   # orientation must not make shared boundaries cancel
         graph = TnN.T * TnN     # graph where N-elements are nodes and n-elements are edges
         n_components, labels = scipy.sparse.csgraph.connected_components(graph)
         return n_components, labels
-- 
2.43.0


From 8ae934f5006f2d4926543e0fd3691ad7a72830cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 06/76] fix: subdivide_loop_direct builds a valid chain complex
 and the corners of every triangle

The vertices of all fine triangles were taken from the first coarse triangle only, and the sign of the
edges inside a triangle did not match the convention of from_simplices, such that consecutive
topology matrices did not multiply to zero.
---
 pycomplex/topology/simplicial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..7276065 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -479,7 +479,7 @@ class TopologyTriangular(TopologySimplicial):
         # add middle (zero) tri
         # add middle connectivity; three new edges for each face
         fE21[:,0,:] = np.arange(3*N2, dtype=index_dtype).reshape((N2, 3)) + N1*2
-        fO21[:,0,:] = 1                                  # orientation of middle tri is given by convention
+        fO21[:,0,:] = -1                                 # orientation of middle tri follows the convention of from_simplices
 
         # first edge of each outer tri is connected to the middle; copy index, invert sign
         fE21[:,1:,0] =  fE21[:,0,:]
@@ -497,10 +497,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0     # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0    # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
-- 
2.43.0


From b853ecb80b53c5953e6d91a0e94f83376d47fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 07/76] fix: cubical subdivision of tetrahedra preserves
 orientation

---
 pycomplex/topology/simplicial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 7276065..98cea47 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -319,6 +319,9 @@ class TopologySimplicial(PrimalTopology):
                 r = cubes[:, i, 0, 1, 1]
                 cubes[:, i, 0, 0, 1] = edge_containing_faces(l, r)
 
+            # a roll of the four faces is an odd permutation; mirror every other cube to preserve orientation
+            cubes[:, ::2] = np.swapaxes(cubes[:, ::2], -1, -2).copy()
+
         else:
             # in 4d case, we get 5 4-cubes, with 16 corners
             # having a 1-4-6-4-1 distribution
-- 
2.43.0


From fa8ccf680d2dab167db3944c22c35249651b41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:53 +0000
Subject: [PATCH 08/76] fix: subdivide_simplicial works for 1-simplices

---
 pycomplex/topology/simplicial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 98cea47..25063d1 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -34,7 +34,7 @@ def generate_simplex_boundary(simplices):
     b = np.empty((n_simplices, n_corners, n_dim), dtype=simplices.dtype)
     for c in range(n_corners):
         b[:, c] = np.roll(simplices, -c, axis=-1)[:, 1:]
-        if c % 2 and n_dim % 2:
+        if c % 2 and n_dim % 2 and n_dim > 1:   # points have no orientation of their own
             b[:, c, [0, 1]] = b[:, c, [1, 0]]   # change the parity by swapping two vertices
     return b
 
@@ -348,6 +348,9 @@ class TopologySimplicial(PrimalTopology):
         boundary = generate_simplex_boundary(self.elements[-1])
         tips = np.repeat(self.range(-1)[:, None, None], self.n_dim + 1, axis=1) + self.n_elements[0]
         simplices = np.concatenate([boundary, tips], axis=2)
+        if self.n_dim == 1:
+            # the boundary of an edge cannot signal its orientation
+            simplices[:, 0] = simplices[:, 0, ::-1].copy()
         return type(self).from_simplices(simplices.reshape(-1, self.n_dim + 1))
 
 
-- 
2.43.0


From 61fc3e15634998eabac7f8441835e74b07fff731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:05 +0000
Subject: [PATCH 09/76] fix: circumcenters do not depend on the position and
 scale of a simplex

The cutoff on the eigenvalues of the normal equations discarded genuine information for a simplex that is
small relative to its distance to the origin, such that the midpoint of an edge could end up far outside of it.
---
 pycomplex/geometry/euclidian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..88c8b99 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -149,6 +149,14 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
     gu = pts.shape[:-2]
     N = n_pts + 1
 
+    # the result does not depend on position or scale of the points; but the conditioning of the equations does
+    pts = pts - pts.mean(axis=-2, keepdims=True)
+    scale = np.abs(pts).max(axis=(-2, -1))
+    scale = np.where(scale > 0, scale, 1)[..., None]
+    pts = pts / scale[..., None]
+    if weights is not None:
+        weights = weights / scale ** 2
+
     A = np.ones(gu + (N, N))
     A[..., -1, -1] = 0
     A[..., :-1, :-1] = np.einsum('...ij,...kj->...ik', pts, pts) * 2
-- 
2.43.0


From ca3f5694f0b87d9ac5441330440df0861c08f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 10/76] fix: degree overflowed for elements with more than 127
 incident cells

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 70adbee..6697acd 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -269,7 +269,7 @@ class BaseTopology(object):
             N-elements for each n-element
         """
         A = self.accumulated_operators_N()
-        N_elements = self.chain(-1, fill=1)
+        N_elements = self.chain(-1, fill=1, dtype=index_dtype)
         # ones_like constructs a summing operator; seek nnz per column
         return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]
 
-- 
2.43.0


From ceb7a800340ba234a0656381ece8325b6ed75dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:19 +0000
Subject: [PATCH 11/76] fix: metric of a weighted complex used the signs of the
 unweighted circumcenters

---
 pycomplex/complex/simplicial/euclidian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..6784d03 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -158,10 +158,7 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         PP = self.primal_position
         domains = self.topology.fundamental_domains()
 
-        corners = self.vertices[self.topology.corners[-1]]
-        mean = corners.mean(axis=-2, keepdims=True)  # centering
-        corners = corners - mean
-        bary = euclidian.circumcenter_barycentric(corners)
+        bary = self.primal_barycentric[-1]
         signs = np.sign(bary)   # if the face opposing this vert is inverted wrt the circumcenter
         signs = (signs.T * np.ones_like(domains[..., 0]).T).T.reshape(-1) # duplicate signs to all fundamental domains corresponding to each face
 
-- 
2.43.0


From 4845965f0cf2bfa98bddeda4f6c6b5a613bb4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:41 +0000
Subject: [PATCH 12/76] fix: primal metric of simplices with obtuse faces or
 off-center weights

---
 pycomplex/complex/simplicial/euclidian.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 6784d03..ed31757 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -169,23 +169,20 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
         DN = PN[::-1]
 
         # metrics
-        PM = [np.zeros(n) for n in PN]
-        PM[0][...] = 1
+        unsigned = euclidian.unsigned_volume
+        PM = [unsigned(self.vertices[c]) for c in topology.corners]
         DM = [np.zeros(n) for n in DN]
         DM[0][...] = 1
 
-        unsigned = euclidian.unsigned_volume
         from scipy.special import factorial
         groups = [npi.group_by(c) for c in domains.T]   # cache groupings since they can be reused
 
+        # FIXME: only signs of the n-simplex circumcenters are handled; the sub-simplices are assumed to be well-centered
         for i in range(1, self.topology.n_dim):
-            n = i + 1
             d = self.topology.n_dim - i
-            PM[i] = groups[i].mean(unsigned(corners[:, :n]))[1] * factorial(n)  # FIXME: primal can be signed too! tri of tet for instance. need to work out signs logic better
             DM[i] = groups[d].sum (unsigned(corners[:, d:]) * signs)[1] / factorial(d+1)
 
-        V = euclidian.unsigned_volume(corners) * signs
-        PM[-1] = groups[-1].sum(V)[1]
+        V = unsigned(corners) * signs
         DM[-1] = groups[+0].sum(V)[1]
 
         return PM, DM
-- 
2.43.0


From 6eb50d0140f3e3e9e7211e49d7be2693b9f4f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:41 +0000
Subject: [PATCH 13/76] fix: fundamental domains of a 0-dimensional simplicial
 topology

---
 pycomplex/topology/simplicial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 25063d1..95be376 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -227,7 +227,7 @@ class TopologySimplicial(PrimalTopology):
             s[i:] = 1
             IN0 = generate_simplex_boundary(IN0.reshape(-1, IN0.shape[-1])).reshape(IN0.shape + (-1, ))
             domains[..., -i] = element_indices(self.elements[-i], IN0).reshape(s)
-        domains[..., 0] = IN0
+        domains[..., 0] = IN0.reshape(domains.shape[:-1])
 
         return domains
 
-- 
2.43.0


From 6eab073f3b2094f76399dd936a6175e2fcdcaf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 14/76] fix: boundary and subdivisions of a complex lost its
 radius and weights, or kept weights of the wrong length

---
 pycomplex/complex/base.py                 |  8 +++++++-
 pycomplex/complex/simplicial/base.py      |  6 ++++--
 pycomplex/complex/simplicial/euclidian.py |  2 +-
 pycomplex/complex/simplicial/spherical.py | 14 +++++++++++---
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..c944327 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -85,7 +85,13 @@ class BaseComplex(object):
             return None
         else:
             # FIXME: type self should be boundary_type; make that a seperate problem
-            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary)
+            weights = getattr(self, 'weights', None)
+            kwargs = {}
+            if weights is not None:
+                kwargs['weights'] = weights[boundary.parent_idx[0]]
+            if hasattr(self, 'radius'):
+                kwargs['radius'] = self.radius
+            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary, **kwargs)
 
     def fix_orientation(self):
         return self.copy(topology=self.topology.fix_orientation())
diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..2d5a66f 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -17,9 +17,10 @@ class BaseComplexSimplicial(BaseComplex):
     """
 
     def subdivide_fundamental(self, oriented=True):
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate(self.primal_position, axis=0),
             topology=self.topology.subdivide_fundamental(oriented),
+            weights=None,
         )
 
     def subdivide_fundamental_transfer(self):
@@ -27,9 +28,10 @@ class BaseComplexSimplicial(BaseComplex):
 
     def subdivide_simplicial(self):
         PP = self.primal_position
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate([PP[0], PP[-1]], axis=0),
             topology=self.topology.subdivide_simplicial(),
+            weights=None,
         )
 
     def subdivide_cubical(self):
diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index ed31757..eb33c62 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -716,7 +716,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         radius = np.linalg.norm(self.vertices, axis=1)
         assert np.allclose(radius, radius.mean())
         from pycomplex.complex.simplicial.spherical import ComplexSpherical2
-        return ComplexSpherical2(vertices=self.vertices, topology=self.topology)
+        return ComplexSpherical2(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     def save_STL(self, filename):
         """Save a mesh to binary STL.
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..1ab6e60 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -226,6 +226,12 @@ class ComplexSpherical2(ComplexSpherical):
         self.topology = topology
         self.radius = radius
 
+    @cached_property
+    def boundary(self):
+        # the boundary of a triangular complex isnt triangular
+        return ComplexSpherical(
+            vertices=self.vertices, topology=self.topology, radius=self.radius, weights=self.weights).boundary
+
     def subdivide_loop(self):
         """Subdivide the complex, returning a refined complex where each edge inserts a vertex
 
@@ -234,7 +240,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None
         )
 
     def subdivide_loop_direct(self):
@@ -245,12 +252,13 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None
         )
 
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
-        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)
+        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     @staticmethod
     def multigrid_transfer_dual(coarse, fine):
-- 
2.43.0


From e5a494ba4f541e4ccd2a7cdd93791f8e667058cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:07 +0000
Subject: [PATCH 15/76] fix: length of short spherical edges was imprecise or
 nan

---
 pycomplex/geometry/spherical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 189a864..9613a20 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -18,7 +18,9 @@ def edge_length(*edge):
     lengths: ndarray, [n], float
         length along the unit sphere of each segment
     """
-    return np.arccos(linalg.dot(*edge))
+    # arccos of the dot product loses all precision on short edges, and is undefined if rounded to over one
+    s, e = np.asarray(edge[0]), np.asarray(edge[1])
+    return 2 * np.arctan2(np.linalg.norm(s - e, axis=-1), np.linalg.norm(s + e, axis=-1))
 
 
 def triangle_area_from_normals(*edge_planes):
-- 
2.43.0


From 3c461b1a1aabaf29f06e71e221728554b059abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 16/76] fix: dual metric of the boundary of regular complexes

---
 pycomplex/complex/regular.py  | 4 ++--
 pycomplex/geometry/regular.py | 2 +-
 pycomplex/topology/cubical.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..f1c5717 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -332,12 +332,12 @@ class ComplexRegularMixin(object):
             g, sums = groups[i].sum(hypervolume)
             PM[n][g] += sums
         # now we divide by the number of primal N-cubes contributing to each primal n-cube
-        for n in range(1, self.n_dim):
+        for n in range(1, topology.n_dim):
             PM[n] /= self.topology.degree[n]
 
         # do summation of dual terms
         for i, c in list(enumerate(corners))[1:-1]:
-            n = self.n_dim - c.sum()
+            n = topology.n_dim - c.sum()
             hypervolume = regular.hypervolume(cubes[idx(c)], cubes[idx(corners[-1])], n=n)
             g, sums = groups[i].sum(hypervolume)
             DM[n][g] += sums / (2 ** c.sum())
diff --git a/pycomplex/geometry/regular.py b/pycomplex/geometry/regular.py
index 77b05d2..ed48fbf 100755
--- a/pycomplex/geometry/regular.py
+++ b/pycomplex/geometry/regular.py
@@ -26,7 +26,7 @@ def hypervolume(a, b, n=None):
     d = a - b
     if n is not None:
         d = np.sort(np.abs(d), axis=1)
-        d = d[:, -n:]
+        d = d[:, d.shape[1] - n:]
     return np.abs(np.prod(d, axis=-1))
 
 
diff --git a/pycomplex/topology/cubical.py b/pycomplex/topology/cubical.py
index 83fd296..f5090cc 100755
--- a/pycomplex/topology/cubical.py
+++ b/pycomplex/topology/cubical.py
@@ -154,7 +154,7 @@ class TopologyCubical(PrimalTopology):
     @cached_property
     def cube_corners(self):
         """Ndarray, [n_corners, n_dim], int"""
-        return np.indices(self.cube_shape).reshape(self.n_dim, -1).T.astype(sign_dtype)
+        return np.indices(self.cube_shape).reshape(self.n_dim, 2 ** self.n_dim).T.astype(sign_dtype)
 
     @classmethod
     def from_elements(cls, elements, mirror=True):
-- 
2.43.0


From 91f0d7e3cde13cf23bf3c463db0511c2e40b2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 17/76] fix: pinv of rectangular or rank deficient matrices,
 and batched circumcenter_construction

---
 pycomplex/geometry/euclidian.py |  6 +++---
 pycomplex/math/linalg.py        | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 88c8b99..ab04700 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -43,14 +43,14 @@ def circumcenter_construction(pts, weights=None):
     if weights is not None:
         weights = np.asarray(weights)
 
-    first = pts[..., 0, :]
+    first = pts[..., :1, :]
     moved = pts[..., 1:, :] - first
     e2 = linalg.dot(moved, moved)
     if weights is not None:
-        e2 -= (weights[..., 1:] - weights[..., 0])
+        e2 = e2 - (weights[..., 1:] - weights[..., :1])
     pinv = linalg.pinv(moved)
 
-    centroid = linalg.dot(pinv, e2) / 2 + first
+    centroid = np.einsum('...ij,...j->...i', pinv, e2) / 2 + first[..., 0, :]
     return centroid
 
 
diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index daeac8c..9e49f98 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -208,19 +208,19 @@ def pinv(A, r=1e-9):
 
     Parameters
     ----------
-    A : ndarray, [..., n, n]
+    A : ndarray, [..., n, m]
         (array of) matrices
     r : float, optional
         tolerance parameter
 
     Returns
     -------
-    I : ndarray, [..., n, n]
+    I : ndarray, [..., m, n]
         pseudo inverses
 
     """
-    u, s, v = np.linalg.svd(A)
-    inv = 1 / s
-    inv[np.abs(s / s[..., :1]) < r] = 0
+    u, s, v = np.linalg.svd(A, full_matrices=False)
+    inv = np.zeros_like(s)
+    np.divide(1, s, out=inv, where=s > s[..., :1] * r)
     # s[:, self.complex.topology.n_dim:] = 0
-    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v)
+    return np.einsum('...ij,...j,...jk->...ki', u, inv, v)
-- 
2.43.0


From 0a7415cb9be404da800dd8b9b4bba83012763e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 18/76] fix: spherical circumcenter of unbatched or multiply
 batched points

---
 pycomplex/geometry/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 9613a20..4d8a1a6 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -158,7 +158,7 @@ def circumcenter(pts):
     if n_pts == 2:
         return edge_circumcenter(pts)
     if n_pts == 1:
-        return pts[:, 0, :]
+        return pts[..., 0, :]
     from pycomplex.geometry import euclidian
     return linalg.normalized(euclidian.circumcenter(pts))
 
-- 
2.43.0


From b9066948b2c8c2ef4b65ddb0dc730c4de79774f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:40 +0000
Subject: [PATCH 19/76] fix: sides of an edge were mixed up in the excess,
 weights and flux of 1-dimensional complexes

---
 pycomplex/complex/base.py            |  1 +
 pycomplex/complex/simplicial/base.py | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index c944327..f07e7a0 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -382,6 +382,7 @@ class BaseComplex(object):
             from pycomplex.geometry import euclidian
             # NOTE: analogous computation would be normal of cube faces multiplied with their area
             gradients = euclidian.simplex_gradients(self.vertices[self.topology.elements[-1]])
+            B, O = self.opposing_boundary
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 2d5a66f..0688801 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -42,6 +42,22 @@ class BaseComplexSimplicial(BaseComplex):
             topology=self.topology.subdivide_cubical(),
         )
 
+    @cached_property
+    def opposing_boundary(self):
+        """Index and relative orientation of the n-1-simplex opposing each corner of each n-simplex
+
+        Returns
+        -------
+        index : ndarray, [n_N-elements, n_corners], index_dtype
+        orientation : ndarray, [n_N-elements, n_corners], sign_dtype
+        """
+        B = self.topology._boundary[-1]
+        O = self.topology._orientation[-1]
+        if self.topology.n_dim == 1:
+            # boundary of an edge is stored in order of its own corners
+            return B[:, ::-1], O[:, ::-1]
+        return B, O
+
     def dual_edge_excess(self, signed=True):
         """Compute the 'dual edge excess'
 
@@ -59,7 +75,7 @@ class BaseComplexSimplicial(BaseComplex):
         euclidian metric is used here; also usefull in spherical applications
         """
         PP = self.primal_position
-        B = self.topology._boundary[-1]
+        B, _ = self.opposing_boundary
         delta = PP[-1][:, None, :] - PP[-2][B]
         d = linalg.dot(delta, delta)  #* sign
         if signed:
@@ -155,7 +171,7 @@ class BaseComplexSimplicial(BaseComplex):
         PP = self.primal_position
         circumcenter = PP[-1]
         diff = circumcenter - barycenter    # this is what we seek to minimize
-        B = self.topology._boundary[-1]
+        B, _ = self.opposing_boundary
 
         # FIXME: using this as gradient directions is brittle; will fail around 0
         # delta = linalg.normalized(PP[-1][:, None, :] - PP[-2][B])
@@ -226,9 +242,8 @@ class BaseComplexSimplicial(BaseComplex):
         field : ndarray, [n_n-simplices], float
             quantity defined on all boundaries
         """
-        INn = self.topology._boundary[-1]
+        INn, ONn = self.opposing_boundary
         if oriented:
-            ONn = self.topology._orientation[-1]
             field = field * ONn
         _, field = npi.group_by(INn.flatten()).sum((field).flatten())
         return field
-- 
2.43.0


From fdc9ab6174a484430d55e5008ad6f5fec8caa6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:57 +0000
Subject: [PATCH 20/76] fix: weights of fundamental subdivision were too large
 on graded meshes, and degenerate in three dimensions

---
 pycomplex/complex/simplicial/base.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 0688801..0f696c1 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -213,19 +213,22 @@ class BaseComplexSimplicial(BaseComplex):
         # from pycomplex.topology.simplicial import TopologySimplicial
         # assert isinstance(parent, TopologySimplicial)
 
-        weights = self.topology.form(0)
-
-        # calculate average length of edge connecting to vertex-vertex
-        edge_length = self.unsigned_volume(self.vertices[self.topology.elements[1]])
-        # edge_length = self.primal_metric[1]
-
-        A = self.topology.averaging_operators_0[1].T
-        scale = (A * edge_length ** 2) / (A * np.ones_like(edge_length))
-
-        # best to only push away along primal edges, since dual edge lengths are much more variable
-        weights[:parent.n_elements[0]] = scale[:parent.n_elements[0]] / 4
-        # weights[-parent.n_elements[-1]:] = scale
-        # weights[parent.n_elements[0]:-parent.n_elements[-1]] = -scale / 2
+        # order the corners of each fundamental domain by the dimension of the parent element they sit in
+        simplices = self.topology.elements[-1]
+        order = np.argsort(np.searchsorted(np.cumsum(parent.n_elements), simplices, side='right'), axis=1)
+        simplices = np.take_along_axis(simplices, order, axis=1)
+        # squared lengths of the orthogonal edges of each domain
+        length = np.array([self.unsigned_volume(self.vertices[simplices[:, [i, i + 1]]])
+                           for i in range(self.topology.n_dim)]) ** 2
+
+        weights = np.full(self.topology.n_elements[0], np.inf)
+        # the weight may not move the dual vertex beyond the first edge of any of the incident domains
+        np.minimum.at(weights, simplices[:, 0], length[0] / 4)
+        # nor should the weights of subsequent corners undo the effect of those before them
+        for i in range(1, self.topology.n_dim - 1):
+            bump = weights[simplices[:, i - 1]] * length[i] / (length[i] + length[i - 1]) / 2
+            np.minimum.at(weights, simplices[:, i], bump)
+        weights[np.isinf(weights)] = 0
 
         return self.copy(weights=weights)
 
-- 
2.43.0


From 1e9e8d7dbe7366217681b87edcb06fcc2df0cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:11 +0000
Subject: [PATCH 21/76] fix: primal picking was approximate on the sphere, and
 wrong on disconnected complexes

---
 pycomplex/complex/simplicial/base.py      | 36 +++++++++++++----------
 pycomplex/complex/simplicial/spherical.py | 16 ++++++++++
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 0f696c1..c6a63b7 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -346,6 +346,24 @@ class BaseComplexSimplicial(BaseComplex):
         basis = np.linalg.inv(self.homogenize(corners))
         return tree, basis
 
+    @cached_property
+    def pick_primal_sites(self):
+        """Points and weights of which the power diagram coincides with the primal simplices
+
+        Returns
+        -------
+        points : ndarray, [n_N-elements, n_dim], float
+        weights : ndarray, [n_N-elements], float
+        """
+        corners = self.vertices[self.topology.elements[-1]]
+        dual_vertex = np.einsum('...cn,...c->...n', corners, self.primal_barycentric[-1])
+        # all corners of a simplex have the same power distance to its dual vertex
+        delta = corners[:, 0] - dual_vertex
+        weights = linalg.dot(delta, delta)
+        if self.weights is not None:
+            weights = weights - self.weights[self.topology.elements[-1][:, 0]]
+        return dual_vertex, weights
+
     def pick_primal_precomp(self, weight):
         """Precomputations for primal picking
 
@@ -364,24 +382,10 @@ class BaseComplexSimplicial(BaseComplex):
         assert self.is_pairwise_delaunay  # if centroids cross eachother, this method fails
 
         corners = self.vertices[self.topology.elements[-1]]
-        dual_vertex = np.einsum('...cn,...c->...n', corners, self.primal_barycentric[-1])
-
         if weight:
-            ee = self.dual_edge_excess(signed=False)
-            # sum these around each n-1-simplex, or bounding face, to get n-1-form
-            S = self.topology.selector_interior[-2]  # only consider interior simplex boundaries
-            q = S * self.remap_boundary_N(ee, oriented=True)
-            T = S * self.topology.matrices[-1]
-            # solve T * w = q; that is,
-            # difference in desired weights on simplices over faces equals difference in squared distance over boundary between simplices
-            L = T.T * T
-            rhs = T.T * q
-            rhs = rhs - rhs.mean()  # this might aid numerical stability of minres
-            # FIXME: could we use amg here?
-            weight = scipy.sparse.linalg.minres(L, rhs, tol=1e-12)[0]
-            points = self.augment(dual_vertex, weight)
+            points = self.augment(*self.pick_primal_sites)
         else:
-            points = dual_vertex
+            points = np.einsum('...cn,...c->...n', corners, self.primal_barycentric[-1])
 
         tree = scipy.spatial.cKDTree(points)
         basis = np.linalg.inv(self.homogenize(corners))
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 1ab6e60..6430ff6 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -142,6 +142,22 @@ class ComplexSpherical(BaseComplexSimplicial):
         return [linalg.normalized(np.einsum('...cn,...c->...n', self.vertices[c], b))
                 for c, b in zip(self.topology.corners, self.primal_barycentric)]
 
+    @cached_property
+    def pick_primal_sites(self):
+        """Points and weights of which the power diagram coincides with the spherical simplices
+
+        Notes
+        -----
+        The boundary between two such sites ought to be a plane through the origin
+        """
+        simplices = self.topology.elements[-1]
+        power = np.ones(simplices.shape)
+        if self.weights is not None:
+            power = power - self.weights[simplices] / 2
+        # the plane through the corners of a simplex, displaced by their weights, is given by dot(plane, x) == power
+        plane = np.einsum('tcv,tv->tc', np.linalg.inv(self.vertices[simplices]), power)
+        return plane, linalg.dot(plane, plane)
+
     @cached_property
     def metric(self):
         """Compute metrics from fundamental domain contributions
-- 
2.43.0


From 07bbbc85c7e35795106c95e314309a2cc37abc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:15 +0000
Subject: [PATCH 22/76] fix: sampling of vector valued primal 0-forms on
 simplicial complexes

---
 pycomplex/complex/simplicial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index c6a63b7..fb2013a 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -567,4 +567,4 @@ class BaseComplexSimplicial(BaseComplex):
         simplex_idx, bary = self.pick_primal(points)
         simplices = self.topology.elements[-1]
         vertex_idx = simplices[simplex_idx]
-        return (p0[vertex_idx] * bary).sum(axis=1)
+        return (p0[vertex_idx].T * bary.T).T.sum(axis=1)
-- 
2.43.0


From 1eaa8d0f2588e897df220e7bdcbb0ba754d808e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 23/76] fix: hints for picking regular cubes were accepted when
 the point lies beyond their far side

---
 pycomplex/complex/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index f1c5717..b13d9ce 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
@@ -172,10 +172,10 @@ class ComplexRegularMixin(object):
         if domain_idx is None:
             domain, baries = query(points)
         else:
+            domain = domains[domain_idx]
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
-                domain = domains[domain_idx]
                 d, b = query(points[update])
                 domain[update] = d
                 baries[update] = b
-- 
2.43.0


From ef05e10d8bd27507d34afc0bc5842e35f575042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:30 +0000
Subject: [PATCH 24/76] fix: sampling a primal 0-form on a 1d regular complex
 added an axis

---
 pycomplex/complex/regular.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index b13d9ce..5bb2609 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -265,8 +265,7 @@ class ComplexRegularMixin(object):
         """
         element, bary = self.pick_primal(points)
         bary = np.clip(bary, 0, 1)
-        IN0 = self.topology.incidence[-1, 0]
-        verts = IN0[element]
+        verts = self.topology.elements[-1][element]
         # do interpolation over cube
         total = 0
         for c in self.topology.cube_corners:
-- 
2.43.0


From 1d919616e7121a3bc1c1169501fe2c2fb143975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 25/76] fix: shape of the operator of unsmoothed loop
 subdivision and its smoothed variant

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index eb33c62..4e6e64b 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -313,7 +313,7 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From 3f66288ef30f6a941a950b3d68ba6eb61091d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 26/76] fix: smooth used circumcenters where smooth_operator
 uses centroids, which does not commute with affine maps

---
 pycomplex/complex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index f07e7a0..9556ddb 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -173,8 +173,9 @@ class BaseComplex(object):
         # accumulate new vertex positions
         vertices = self.vertices.copy()
         # start with n-elements, working backwards to vertices
-        for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
+        for corners, cr in reversed(list(zip(self.topology.corners, C))):
             if cr is not None:
+                centroids = self.vertices[corners].mean(axis=1)
                 n_pts = corners.shape[1]
                 corners = corners[cr].flatten()
                 centroids = np.repeat(centroids[cr], n_pts, axis=0)
-- 
2.43.0


From 00704551d1efaaaaffadaa730d2acd5350a07dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 27/76] fix: velocities reconstructed from fluxes had opposite
 sign on regular and simplicial complexes

---
 pycomplex/complex/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9556ddb..4ea0094 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -387,7 +387,8 @@ class BaseComplex(object):
 
         elif isinstance(self, ComplexRegularMixin):
             pp = self.primal_position
-            gradients = pp[-2][B] - pp[-1][:, None, :]
+            # pointing inward, like the simplicial gradients
+            gradients = pp[-1][:, None, :] - pp[-2][B]
             # gradients -= gradients.mean(axis=1, keepdims=True)
 
             gradients = linalg.normalized(gradients)
-- 
2.43.0


From e6127077413193981485e1154f8982491e03fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 28/76] fix: velocity reconstruction on curves in three or more
 dimensions raised

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 4ea0094..627d5c2 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -397,7 +397,7 @@ class BaseComplex(object):
             raise NotImplementedError
 
 
-        u, s, v = np.linalg.svd(gradients)
+        u, s, v = np.linalg.svd(gradients, full_matrices=False)
         # only retain components in the plane of the element
         s[:, self.topology.n_dim:] = np.inf
         s = 1 / s
-- 
2.43.0


From bb8920c02fc12b4dff227d0335b7ab6e48cdbab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 29/76] fix: center of mass of solids that are not star-shaped
 around the origin

---
 pycomplex/complex/simplicial/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 4e6e64b..3fbd619 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -590,7 +590,8 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             np.zeros_like(tris[:, 0:1, :])
         ), axis=1)
         tet_centroids = tets.mean(axis=1)
-        tet_volumes = euclidian.unsigned_volume(tets)
+        # signed volumes, since tets to the origin cancel where the surface does not face away from it
+        tet_volumes = np.linalg.det(tris) / 6
 
         return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()
 
-- 
2.43.0


From 89169a2fb3dd0eddceadfb374ebddf12776562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 30/76] fix: vertex areas of a triangular complex summed to
 twice its area

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 3fbd619..515b02d 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -547,7 +547,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         """Compute circumcentric area here"""
         # FIXME: this is not a circumcentric area! wil do for now... we have the circumcentric area now but not happy with it yet..
         I20 = self.topology.incidence[2, 0]
-        t_a = np.linalg.norm(self.triangle_normals(), axis=1)
+        t_a = np.linalg.norm(self.triangle_normals(), axis=1) / 2
         vertex_idx, v_a = npi.group_by(I20.flatten()).sum(np.repeat(t_a, 3, axis=0))
         return v_a / 3
 
-- 
2.43.0


From fe43df3ab805830fe85f0c2afdabf970fe6aac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 31/76] fix: vertices with zeros of different sign were not
 merged when loading STL

---
 pycomplex/complex/simplicial/euclidian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 515b02d..b8067d7 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -760,7 +760,8 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             triangles = np.fromfile(fh, '<u4', 1)[0]
             data = np.fromfile(fh, dtype, triangles)
 
-        vertices, triangles = npi.unique(data['vertex'].reshape(-1, 3), return_inverse=True)
+        # adding zero turns negative zeros into positive ones, which would not compare as equal bitwise
+        vertices, triangles = npi.unique(data['vertex'].reshape(-1, 3) + 0, return_inverse=True)
         return cls(vertices, triangles=triangles.reshape(-1, 3))
 
     def extrude(self, other):
-- 
2.43.0


From 6eeedd82c1c0e50138598d0d6cdbbf6ec0284aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 32/76] fix: overlap of dual cells of spheres with another
 radius than one

---
 pycomplex/complex/simplicial/spherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 6430ff6..bc4f311 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -404,7 +404,7 @@ class ComplexSpherical2(ComplexSpherical):
             np.broadcast_to(i20[central_tris, None, :], areas.shape),
         )
 
-        return (center_transfer + corner_transfer).tocsr()
+        return (center_transfer + corner_transfer).tocsr() * coarse.radius ** 2
 
     @cached_property
     def coarse_to_fine(coarse):
-- 
2.43.0


From f980fdb96d999a3083f2f44ca20eebb516da5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 33/76] fix: coarse_to_fine and fine_to_coarse raised

---
 pycomplex/complex/simplicial/spherical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index bc4f311..46a1252 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -415,7 +415,7 @@ class ComplexSpherical2(ComplexSpherical):
         sparse matrix, [fine.n_vertices, coarse.n_vertices], float
         """
         from pycomplex.sparse import normalize_l1
-        return normalize_l1(coarse.multigrid_transfer_dual)
+        return normalize_l1(coarse.multigrid_transfer_dual(coarse, coarse.subdivide_loop()).T, axis=1)
     @cached_property
     def fine_to_coarse(coarse):
         """Maps primal-0-form on fine to primal-0-form on coarse
@@ -425,7 +425,7 @@ class ComplexSpherical2(ComplexSpherical):
         sparse matrix, [coarse.n_vertices, fine.n_vertices], float
         """
         from pycomplex.sparse import normalize_l1
-        return normalize_l1(coarse.multigrid_transfer_dual.T)
+        return normalize_l1(coarse.multigrid_transfer_dual(coarse, coarse.subdivide_loop()), axis=1)
 
 
 class ComplexSpherical3(ComplexSpherical):
-- 
2.43.0


From cdddbe5d8d0d776692ad8afbc86aebe874bb451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 34/76] fix: area of small or thin spherical triangles was
 imprecise

---
 pycomplex/geometry/spherical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 4d8a1a6..ba76818 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -55,7 +55,10 @@ def triangle_area_from_corners(*tri):
     areas : ndarray, [n], float
         spherical area enclosed by the input corners
     """
-    return triangle_area_from_normals(*[np.cross(tri[v-2], tri[v-1]) for v in range(3)])
+    # solid angle formula; the sum of angles loses all precision on small triangles and slivers
+    a, b, c = [np.asarray(t) for t in tri]
+    det = linalg.dot(a, np.cross(b - a, c - a))
+    return 2 * np.arctan2(np.abs(det), 1 + linalg.dot(a, b) + linalg.dot(b, c) + linalg.dot(c, a))
 
 
 def triangle_areas_around_center(center, corners):
-- 
2.43.0


From bc0c946bea9965542e389cebb8fa5b3a1692688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 35/76] fix: multigrid transfer of spheres that are oriented
 inwards

---
 pycomplex/complex/simplicial/spherical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 46a1252..92ff192 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -359,6 +359,8 @@ class ComplexSpherical2(ComplexSpherical):
         # compute the two intersection points
         pl = +intersect_edges(p0[a, l], P2, p1[a, L], p2)   # right fine edge is left coarse edge / left fine vertex
         pr = -intersect_edges(p0[a, r], P2, p1[a, R], p2)   # left fine edge if right coarse edge / right fine vertex
+        # of the two antipodal intersections, we want the one inside the triangle, also if it is oriented inwards
+        pl, pr = [p * np.sign(linalg.dot(p, P2))[:, None] for p in (pl, pr)]
 
         if False:
             import matplotlib.pyplot as plt
-- 
2.43.0


From 02999f225ac50aefb71913c3528517f540a1ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 36/76] fix: only simplify exactly zero or one diagonals of
 stencil operators

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index 76faafb..ac59234 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -156,9 +156,9 @@ class DiagonalOperator(SymmetricOperator):
             )
 
     def simplify(self):
-        if np.allclose(self.diagonal, 0):
+        if np.all(np.equal(self.diagonal, 0)):
             return ZeroOperator(self.shape)
-        if np.allclose(self.diagonal, 1):
+        if np.all(np.equal(self.diagonal, 1)):
             return IdentityOperator(self.shape[0])
         return self
 
-- 
2.43.0


From 2bbe89c97a83d9c443afcf3a505377112ae19346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 37/76] fix: let stencil operators act on flat vectors as a
 scipy linear operator

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index ac59234..176e00d 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -74,8 +74,8 @@ class StencilOperator(object):
         from scipy.sparse.linalg import LinearOperator
         return LinearOperator(
             shape=tuple([np.prod(s) for s in self.shape]),
-            matvec=lambda x: self.right(x.flatten()),
-            rmatvec=lambda x: self.left(x.flatten()),
+            matvec=lambda x: self(x.reshape(self.shape[1])).ravel(),
+            rmatvec=lambda x: self.transpose()(x.reshape(self.shape[0])).ravel(),
             dtype=np.float32,
         )
 
-- 
2.43.0


From f5ed7ac651f91f2f475c2f747bc50e2106706631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:37 +0000
Subject: [PATCH 38/76] fix: do not skip falsy items in adjecent_pairs

---
 pycomplex/stencil/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/util.py b/pycomplex/stencil/util.py
index c954196..dba275a 100755
--- a/pycomplex/stencil/util.py
+++ b/pycomplex/stencil/util.py
@@ -101,6 +101,6 @@ def adjecent_pairs(iter):
     """Yield all adjacent pairs from the given iterable"""
     j = None
     for i in iter:
-        if j:
+        if j is not None:
             yield j, i
         j = i
-- 
2.43.0


From d45be8d14b574eea36df7755d2e5ecda7a7a076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 39/76] fix: keep equally shaped stencil blocks apart

---
 pycomplex/stencil/block.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..4d831e5 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -6,6 +6,13 @@ from pycomplex.stencil.operator import ZeroOperator
 
 
 
+def object_array(values, shape):
+    """Array of objects of the given shape, whatever the shapes of those objects"""
+    b = np.empty(len(values), object)
+    b[...] = values
+    return b.reshape(shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
 
@@ -13,19 +20,16 @@ class BlockArray(object):
         if isinstance(block, np.ndarray) and block.dtype == object:
             self.block = block
         else:
-            if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
-            elif ndim == 2:
+            if ndim is None:
+                ndim = 2 if isinstance(block[0], (list, tuple)) else 1
+            if ndim == 1:
+                self.block = object_array(block, len(block))
+            else:
                 b = np.empty((len(block), len(block[0])), object)
                 for i in range(b.shape[0]):
                     for j in range(b.shape[1]):
                         b[i, j] = block[i][j]
                 self.block = b
-            else:
-                # NOTE: this has some annoying failure cases, like singleton lists freaking out
-                self.block = np.asarray(block, dtype=object)
         # assert self.is_compatible
 
     @cached_property
@@ -52,7 +56,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -64,7 +68,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         try:
@@ -78,7 +82,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block, A.shape)
         return type(self)(block)
 
     def __add__(self, other):
-- 
2.43.0


From f8f9019d52bcd5d8a05a59b91cf0bafa0ee324a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 40/76] fix: split dense vectors at the cumulative sizes of the
 stencil blocks

---
 pycomplex/stencil/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 4d831e5..21bcf73 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -162,7 +162,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x, np.cumsum(splits)[:-1]), self.block)
         ], self.ndim)
 
 
-- 
2.43.0


From 49b37e8eb928e6f596e412be91b4ddc914fe6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 41/76] fix: read the arguments of flat stencil block operators
 in their own layout

---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 21bcf73..b3d4938 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -305,7 +305,7 @@ class BlockOperator(BlockArray):
         # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From 7635ff599aa9c3d094ff819ba833efff27d3622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 42/76] fix: shape and squareness of stencil block operators

---
 pycomplex/stencil/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index b3d4938..f2ef924 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -49,7 +49,7 @@ class BlockArray(object):
         one list for each axis
         """
         return [
-            [self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])]
+            [np.ravel(self.block.take([i], axis=n))[0].shape[n] for i in range(self.block.shape[n])]
             for n in range(self.ndim)
         ]
 
@@ -202,8 +202,8 @@ class BlockOperator(BlockArray):
     @cached_property
     def is_square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def to_dense(self):
         # dense = self.apply(lambda x: x.to_dense())    # something broken with apply
-- 
2.43.0


From 10b45152af9b8f2bc1748db6d9c3a9c4f8d2cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 43/76] fix: allocate the forms of a stencil system from its
 topology

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..747fe68 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R])
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L])
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0


From 796757594423ed2e512a15ad1d92ddf023e39d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 44/76] fix: slice stencil systems by lists of rows

---
 pycomplex/stencil/linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 747fe68..f846e31 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -146,7 +146,7 @@ class System(object):
         """Slice a subsystem of full cochain complex"""
         return self.copy(
             A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            B=type(self.B)(self.B.block[item[0]][:, item[0]].copy()),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From d0577428807c9331d4f5ed4720aeada94780edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 45/76] fix: formulate stencil diffusion without the optional
 foo field

---
 pycomplex/stencil/diffusion.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycomplex/stencil/diffusion.py b/pycomplex/stencil/diffusion.py
index 6122572..543bfea 100644
--- a/pycomplex/stencil/diffusion.py
+++ b/pycomplex/stencil/diffusion.py
@@ -66,7 +66,8 @@ class Diffusion(NormalSmoothEquation, MultiGridEquation):
         # field effect can be driven to zero in either equation
         system.A[0, 1] = system.A[0, 1] * DO(fields['conductance'])     # div
         system.A[1, 1] = system.A[1, 1] * DO(fields['resistance'])      # grad
-        system.A[1, 0] = DO(fields['foo']) * system.A[1, 0]
+        if 'foo' in fields:
+            system.A[1, 0] = DO(fields['foo']) * system.A[1, 0]
         return cls(system, fine, fields)
 
     @classmethod
@@ -124,10 +125,8 @@ class Diffusion(NormalSmoothEquation, MultiGridEquation):
             complex=self.complex.coarse,
             fine=self,
             fields={
-                'constraint': self.complex.coarsen[0] * self.fields['constraint'],
-                'conductance': self.complex.coarsen[1] * self.fields['conductance'],
-                'resistance': self.complex.coarsen[1] * self.fields['resistance'],
-                'foo': self.complex.coarsen[1] * self.fields['foo'],
+                name: self.complex.coarsen[0 if name == 'constraint' else 1] * field
+                for name, field in self.fields.items()
             }
         )
 
-- 
2.43.0


From 74ae10da5b1366b15baf38a69f2558df81414534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 46/76] fix: relax stencil rows towards their right hand side
 in NE_BLOCK_GS

---
 pycomplex/stencil/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 65fe21b..d074c7b 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -141,7 +141,7 @@ class NormalSmoothEquation(Equation):
         for ri, l in enumerate(self.system.L):
             residual = sum(a * xc for a, xc in zip(self.system.A[ri, :], x.block)) - by[ri]
             for ci, xc in enumerate(x.block):
-                xc[:] += self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
+                xc[:] -= self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
         return x
 
     def overrelax(self, x: BlockArray, y: BlockArray, knots):
-- 
2.43.0


From 0bd62dc6b8cab692ace18ef84c01d6780b06c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 47/76] fix: start stencil solvers without a guess from zero
 unknowns

---
 pycomplex/stencil/equation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index d074c7b..e2356a4 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -35,6 +35,8 @@ class Equation(object):
         return NormalEquation(self.system.normal_ne())
 
     def solve_minres(self, y, x0=None, **kwargs):
+        if x0 is None:
+            x0 = self.system.allocate_x()
         A = self.system.A.aslinearoperator()
         b = (self.system.B * y).to_dense()
         x, _ = scipy.sparse.linalg.minres(A=A, b=b, x0=x0.to_dense(), **kwargs)
@@ -43,7 +45,7 @@ class Equation(object):
     def solve_minres_normal(self, y, x0=None, **kwargs):
         """Works both for zero-conduction and zero-resistance zero-order problems"""
         if x0 is None:
-            x0 = y * 0
+            x0 = self.system.allocate_x()
         return self.normal.solve_minres(y, x0, **kwargs)
 
     def solve_qmr(self, y, x0, **kwargs):
@@ -175,5 +177,5 @@ class NormalSmoothEquation(Equation):
 class NormalEquation(Equation):
     def solve(self, y, x0=None, **kwargs):
         if x0 is None:
-            x0 = y * 0
+            x0 = self.system.allocate_x()
         return self.solve_minres(y=y, x0=x0, **kwargs)
-- 
2.43.0


From c3b0a26372e63b049eb9045f7aaa461ed0ffce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 48/76] fix: sample interior points of stencil 0-forms

---
 pycomplex/stencil/complex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 5ffa01b..d7f6036 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -199,6 +199,8 @@ class StencilComplex(object):
         if not assume_interior:
             f0 = np.pad(f0[0], [(0, 1)] * self.n_dim, mode='wrap')
             points = np.remainder(points, self.shape)
+        else:
+            f0 = f0[0]
 
         return ndimage.map_coordinates(f0, points.T, order=1)
 
-- 
2.43.0


From ad38b80cec8ba2fade53d7e0b1968867f26992f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 49/76] fix: do not truncate integer forms when smoothing or
 sampling them

---
 pycomplex/stencil/complex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index d7f6036..5b45dc1 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -114,7 +114,7 @@ class StencilComplex(object):
             def inner(f):
                 """smooth a primal n-form along directions normal to it"""
                 # FIXME: for n-form we need no smoothing and we can exit early without copy
-                smoothed = np.copy(f)
+                smoothed = f * 1.0
                 # loop over all components of the form
                 for c, s in enumerate(symbols):
                     # process the form potentially in all directions
@@ -202,7 +202,7 @@ class StencilComplex(object):
         else:
             f0 = f0[0]
 
-        return ndimage.map_coordinates(f0, points.T, order=1)
+        return ndimage.map_coordinates(f0 * 1.0, points.T, order=1)
 
     @cached_property
     def primal_position(self):
-- 
2.43.0


From d3697c2ca8a6ff742af6e90ff65735f0a462010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 50/76] fix: keep equally shaped blocks apart

---
 pycomplex/block.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..32cad37 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -25,11 +25,28 @@ from cached_property import cached_property
 from pycomplex.sparse import sparse_zeros
 
 
+def object_array(values, shape):
+    """Array of objects of the given shape, whatever the shapes of those objects"""
+    b = np.empty(len(values), object)
+    b[...] = values
+    return b.reshape(shape)
+
+
+def nested_array(block):
+    """Array of the items of nested lists, which does not merge in leaf level arrays"""
+    if not isinstance(block, (list, tuple)):
+        return np.asarray(block, dtype=object)
+    shape, values = (), [block]
+    while len(values) and all(isinstance(v, (list, tuple)) for v in values):
+        shape += len(values[0]),
+        values = [v for vs in values for v in vs]
+    return object_array(values, shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
     def __init__(self, block):
-        # FIXME: we wish to convertnested lists but not merge in leaf level arrays. how to enforce this?
-        self.block = np.asarray(block, dtype=object)
+        self.block = nested_array(block)
         # assert self.compatible
 
     @cached_property
@@ -78,7 +95,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -90,7 +107,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def __getitem__(self, slc):
         """Slicing simply passes on to the block"""
@@ -109,7 +126,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block, A.shape)
         return type(self)(block)
 
     def __add__(self, other):
-- 
2.43.0


From 4f6aabff4cb2ef8546a9cce77637fb4fd997d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 51/76] fix: shape and squareness of two dimensional block
 arrays

---
 pycomplex/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 32cad37..b00d38c 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -68,7 +68,7 @@ class BlockArray(object):
         if self.nested:
             # FIXME
             raise NotImplementedError
-        return [[self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
+        return [[np.ravel(self.block.take([i], axis=n))[0].shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
 
     @cached_property
     def nested(self):
@@ -208,8 +208,8 @@ class BlockMatrix(BlockArray):
     @cached_property
     def square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def diagonal(self):
         """Get the diagonal of the block
-- 
2.43.0


From 4c4ec41d234cc185b0732cd4778411a294ea47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 52/76] fix: off-diagonal blocks of SparseBlockMatrix.diags are
 sparse zeros of the right shape

---
 pycomplex/block.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index b00d38c..9a2d4e9 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -290,12 +290,7 @@ class SparseBlockMatrix(BlockMatrix):
     @staticmethod
     def diags(diag):
         """Turn dense block vector into diagonal block structure"""
-        assert diag.ndim == 1
-        output_shape = diag.block.shape * 2
-        output = np.zeros(output_shape, dtype=object)
-        for i, b in enumerate(diag.block):
-            output[i, i] = scipy.sparse.diags(b)
-        return SparseBlockMatrix(output)
+        return BlockMatrix.as_diagonal(diag)
 
 
 
-- 
2.43.0


From 28b09b7952d5bdff828e2e6c659ae65327651fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 53/76] fix: pairs raised RuntimeError at the end of its
 iterable

---
 pycomplex/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycomplex/util.py b/pycomplex/util.py
index fff17cb..a34c8f5 100755
--- a/pycomplex/util.py
+++ b/pycomplex/util.py
@@ -4,11 +4,10 @@ import operator
 def pairs(iterable):
     """Yield pairs of an iterator"""
     it = iter(iterable)
-    x = next(it)
-    while True:
-        p = x
-        x = next(it)
-        yield p, x
+    for p in it:
+        for x in it:
+            yield p, x
+            p = x
 
 
 def accumulate(iterable, func=operator.add):
-- 
2.43.0


From 22083485c86de2e64eb7f26f11229480c1a6f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 54/76] fix: orthonormalize mirrored or singular matrices to
 the closest rotation

---
 pycomplex/math/linalg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 9e49f98..9ee3782 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -85,9 +85,9 @@ def orthonormalize(axes, demirror=True):
     """
     axes = np.asarray(axes)
     u, _, v = np.linalg.svd(axes)
-    if demirror:
-        det = np.linalg.det(axes)
-        v[0] *= np.sign(det)
+    if demirror and len(u) == len(v):
+        if np.linalg.det(u) * np.linalg.det(v) < 0:
+            v[-1] *= -1
     return u.dot(np.eye(*axes.shape)).dot(v)
 
 
-- 
2.43.0


From 50eeea4de280f8885e7db836eeb4c9be2ffd6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 55/76] fix: rounding made angle_from_rotation nan for
 identities and half turns

---
 pycomplex/math/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index 9ee3782..b14d119 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -126,7 +126,7 @@ def angle_from_rotation(R):
     """Extract rotation angle in radians from n-dimensional rotation matrix"""
     n, m = R.shape[-2:]
     assert n == m
-    return np.arccos(1 - (n - np.einsum('...ii->...', R)) / 2)
+    return np.arccos(np.clip(1 - (n - np.einsum('...ii->...', R)) / 2, -1, 1))
 
 
 def adjoint(A):
-- 
2.43.0


From 76123aa676c52e9cff66146f25647a26ac24ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 56/76] fix: conjugate gradients ignored small right hand sides
 and operators

---
 pycomplex/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index d0d34fe..e9e78f9 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -55,7 +55,11 @@ def solve_cg(deflate, operator, rhs, x0=None):
         deflate(q)
 
         dq = dot(d, q)
-        if np.abs(dq) < eps: break
+        dd = dot(d, d)
+        if i == 0:
+            scale = np.abs(dq) / (dd or 1)
+        # break on zero curvature, relative to the scale of the operator
+        if np.abs(dq) <= 1e-15 * scale * dd: break
 
         alpha = delta_new / dq
 
-- 
2.43.0


From 58bcd5cce937be0c5d99284c8fe2fe51a4296e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 57/76] fix: division by zero in conjugate gradients started
 from zero

---
 pycomplex/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index e9e78f9..fe37881 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -73,7 +73,7 @@ def solve_cg(deflate, operator, rhs, x0=None):
 
         if delta_new/delta_0 < eps:
             break
-        if dot(x0,x) / dot(x0,x0) > 1e30:        #guard against runaway
+        if dot(x0,x) > 1e30 * dot(x0,x0) > 0:        #guard against runaway
             break
 
         delta_old = delta_new
-- 
2.43.0


From 269ad5940997851ef8cd34c19249af9d5d33cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 58/76] fix: minres without an initial guess or with a zero
 right hand side

---
 pycomplex/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index fe37881..e9f1f42 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -101,7 +101,7 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     rnorm = 0
     ynorm = 0
 
-    xtype = x0.dtype
+    xtype = np.result_type(A, b, np.float32) if x0 is None else x0.dtype
 
     eps = np.finfo(xtype).eps
 
@@ -122,6 +122,8 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
         raise ValueError('indefinite preconditioner')
 
     beta1 = np.sqrt(beta1)
+    if beta1 == 0:
+        return x
 
 
     # Initialize other quantities
-- 
2.43.0


From 217108d86ca52da97e631238f6eb29bea3347055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 59/76] fix: match sparse indices that occur on one side only

---
 pycomplex/sparse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index 5f5f2f5..b299137 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -119,10 +119,12 @@ def multi_indices(this, that):
     i_this = npi.as_index(this)
     i_that = npi.as_index(that)
 
-    # FIXME: both counts need to be versus the same range
-    _, c_this = npi.count(i_this)
-    _, c_that = npi.count(i_that)
-    ok = _
+    # both counts need to be versus the same range
+    k_this, c_this = npi.count(i_this)
+    k_that, c_that = npi.count(i_that)
+    ok = npi.intersection(k_this, k_that)
+    c_this = c_this[npi.contains(ok, k_this)]
+    c_that = c_that[npi.contains(ok, k_that)]
 
     # total number of entries in the broadcasting pattern
     nnz = (c_this * c_that).sum()
-- 
2.43.0


From 3aef2762bf4ee38963b64dadd3934276f37029a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 60/76] fix: merging a block matrix overwrote its blocks with
 sparse arrays

---
 pycomplex/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9a2d4e9..3136ad6 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -285,7 +285,7 @@ class SparseBlockMatrix(BlockMatrix):
     def merge(self):
         if self.nested:
             raise NotImplementedError
-        return scipy.sparse.bmat(self.block)
+        return scipy.sparse.bmat(self.block.tolist())      # bmat overwrites the blocks of an array
 
     @staticmethod
     def diags(diag):
-- 
2.43.0


From e56738921f31954f76c98a2b207075d01f96366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:27 +0000
Subject: [PATCH 61/76] fix: sparse products without a common index are empty

---
 pycomplex/sparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycomplex/sparse.py b/pycomplex/sparse.py
index b299137..0bad174 100755
--- a/pycomplex/sparse.py
+++ b/pycomplex/sparse.py
@@ -123,6 +123,8 @@ def multi_indices(this, that):
     k_this, c_this = npi.count(i_this)
     k_that, c_that = npi.count(i_that)
     ok = npi.intersection(k_this, k_that)
+    if len(ok) == 0:
+        return np.zeros(0, np.intp), np.zeros(0, np.intp)
     c_this = c_this[npi.contains(ok, k_this)]
     c_that = c_that[npi.contains(ok, k_that)]
 
@@ -246,6 +248,9 @@ class Sparse(object):
             if other.ndim == 2:
                 free.append(other.axes[-1][oi])
 
+            if len(si) == 0:
+                return Sparse(free, self.data[si] * other.data[oi])
+
             # sum over j
             g = npi.group_by(tuple(free))
             k, v = g.sum(self.data[si] * other.data[oi])
-- 
2.43.0


From 4a02cf367daa2f26df7e9172b97bd232b5cce73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 62/76] fix: flat simplices in three dimensional delaunay cubes

---
 pycomplex/synthetic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycomplex/synthetic.py b/pycomplex/synthetic.py
index 4b3090e..b201dce 100755
--- a/pycomplex/synthetic.py
+++ b/pycomplex/synthetic.py
@@ -333,7 +333,11 @@ def delaunay_cube(density=30, n_dim=2, iterations=30):
         points = np.delete(points, np.flatnonzero(r), axis=0)
 
         points = np.concatenate([outer, points], axis=0)
-        simplices = scipy.spatial.Delaunay(points).simplices
+        # lift the points to a paraboloid, with tiny offsets so that no n+2 of them are cospherical;
+        # otherwise the regular outer points give rise to flat simplices
+        height = (points ** 2).sum(axis=1) + np.random.RandomState(0).uniform(0, 1e-4 / density ** 2, len(points))
+        hull = scipy.spatial.ConvexHull(np.concatenate([points, height[:, None]], axis=1))
+        simplices = hull.simplices[hull.equations[:, n_dim] < -1e-6]
         a, b = np.unique(simplices, return_inverse=True)
         simplices = b.reshape(simplices.shape).astype(index_dtype)
         points = points[a]
-- 
2.43.0


From b0e788cc7d33981806e2aedac5e77fe22576d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 63/76] fix: normalize the circle without subdivisions

---
 pycomplex/synthetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycomplex/synthetic.py b/pycomplex/synthetic.py
index b201dce..fb2b83f 100755
--- a/pycomplex/synthetic.py
+++ b/pycomplex/synthetic.py
@@ -70,6 +70,7 @@ def n_cube(n_dim, centering=False, mirror=True):
 def circle(subdivisions: int) -> ComplexCubical1Euclidian2:
     """Construct a circle as a 1-cube grid embedded in euclidian 2-space"""
     complex = n_cube(2, centering=True).boundary
+    complex = complex.copy(vertices=linalg.normalized(complex.vertices))
     for i in range(subdivisions):
         complex = complex.subdivide_cubical(smooth=True)
         complex = complex.copy(vertices=linalg.normalized(complex.vertices))
-- 
2.43.0


From 3499db9d9f44428fb7c14ae5088dbda24f8f0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 64/76] fix: affine_transform raised TypeError

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 627d5c2..40ab4d8 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -116,9 +116,9 @@ class BaseComplex(object):
         return self.copy(vertices=self.vertices.dot(transform))
 
     def affine_transform(self, transform):
-        a = np.concatenate([self.vertices, np.ones_like[self.vertices[:, 0]]], axis=1)
+        a = np.concatenate([self.vertices, np.ones_like(self.vertices[:, :1])], axis=1)
         v = a.dot(transform)
-        return self.copy(vertices=v[:, :2] / v[:, 2])
+        return self.copy(vertices=v[:, :-1] / v[:, -1:])
 
     def scale(self, scale):
         return self.copy(vertices=self.vertices * scale)
-- 
2.43.0


From b406c3ac407c366fc9ab9f4e23cbe9776f494771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 65/76] fix: refining forms that are not contiguous raised
 BufferError

---
 pycomplex/stencil/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 74398c8..503fe0c 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -177,7 +177,7 @@ class StencilTopology(object):
                 fine = self.form(n, init='zeros')
                 for c, s in enumerate(self.symbols[n]):
                     repeats = [2 if i in s else 1 for i in range(self.n_dim)]
-                    view = coarse[c]
+                    view = np.ascontiguousarray(coarse[c])     # the buffer below is read as contiguous
                     view = np.ndarray(
                         buffer=view.data,
                         dtype=view.dtype,
-- 
2.43.0


From 6d7f6a6dd96d60ff697e99e28204d56f4d7cabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 66/76] fix: angles of thin triangles were not a number

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index ab04700..6440ae9 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -336,7 +336,7 @@ def triangle_angles(vertices):
     """
     edges = np.roll(vertices, -1, axis=-2) - np.roll(vertices, +1, axis=-2)
     edges = linalg.normalized(edges, ignore_zeros=True)
-    return np.arccos(-linalg.dot(np.roll(edges, -1, axis=-2), np.roll(edges, +1, axis=-2)))
+    return np.arccos(np.clip(-linalg.dot(np.roll(edges, -1, axis=-2), np.roll(edges, +1, axis=-2)), -1, 1))
 
 
 def segment_normals(corners):
-- 
2.43.0


From 698508e6e98df6e70a269e732835d348af4e11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 67/76] fix: plotting a form on a surface hid the faces that
 are visible

---
 pycomplex/complex/simplicial/euclidian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index b8067d7..08b03a6 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -665,11 +665,11 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
 
         if backface_culling:
             normals = -self.triangle_normals() if flip_normals else self.triangle_normals()
-            visible = normals[:, 2] > 0
+            hidden = normals[:, 2] <= 0
         else:
-            visible = None
+            hidden = None
 
-        triang = tri.Triangulation(*self.vertices[:, :2].T, triangles=self.topology.triangles, mask=visible)
+        triang = tri.Triangulation(*self.vertices[:, :2].T, triangles=self.topology.triangles, mask=hidden)
 
         if ax is None:
             fig, ax = plt.subplots(1, 1)
-- 
2.43.0


From 1ca3b085581e1d13bd2988d384cff968cd421ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 68/76] fix: plotting a 1-form on a stencil complex raised
 ValueError

---
 pycomplex/stencil/complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 5b45dc1..0e866bb 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -256,7 +256,7 @@ class StencilComplex2D(StencilComplex):
         v = v + np.roll(v, shift=1, axis=1)
         x = np.arange(self.shape[0]) * self.scale
         y = np.arange(self.shape[1]) * self.scale
-        plt.streamplot(x, y[::-1], u.T, -v.T)
+        plt.streamplot(x, y, u.T[::-1], -v.T[::-1])
 
     def plot_2(self, f2):
         """Plot a 2-form"""
-- 
2.43.0


From 0ee866cae5fa3b77baf4d59c4ff0a1147b9a02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:30 +0000
Subject: [PATCH 69/76] fix: plotting a surface with a boundary with its dual
 raised IndexError

---
 pycomplex/complex/simplicial/euclidian.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 08b03a6..4c209ac 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -630,13 +630,11 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
 
         if plot_dual:
             dual_vertices, dual_edges = self.dual_position[0:2]
-            dual_topology = self.topology.dual
 
-            from pycomplex.topology.util import sparse_to_elements
-            de = sparse_to_elements(dual_topology[0].T)
-            fe = sparse_to_elements(dual_topology[0])
+            # the dual vertices of the boundary are not part of any face
+            fe = self.topology.incidence[2, 1]
+            dual_vertices = dual_vertices[:len(fe)][visible]
             fe = fe[visible]
-            dual_vertices = dual_vertices[visible]
 
             if plot_lines:
                 # plot dual edges on a per-face basis; good for backface culling, not so much for boundaries
-- 
2.43.0


From 61bf184cb5d1e92bc1b3460e6d8dda2b3721b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 70/76] fix: plotting the dual of a complex with a pinched
 boundary raised ValueError

---
 pycomplex/complex/cubical.py              | 12 +++---------
 pycomplex/complex/simplicial/euclidian.py | 12 +++---------
 pycomplex/complex/simplicial/spherical.py | 11 +++--------
 3 files changed, 9 insertions(+), 26 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..27159e8 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -281,15 +281,9 @@ class ComplexCubical(BaseComplex):
         if plot_dual:
             dual_vertices, dual_edges = self.dual_position[0:2]
             dual_topology = self.topology.dual
-            from pycomplex.topology.util import sparse_to_elements
-            de = sparse_to_elements(dual_topology[0].T)
-
-            de = dual_vertices[de]
-            s, e = de[:,0], de[:,1]
-            s = np.moveaxis(np.array([dual_edges, s]), 0, 1)
-            lc = matplotlib.collections.LineCollection(s[...,:2], color=dual_color, alpha=0.5)
-            ax.add_collection(lc)
-            e = np.moveaxis(np.array([dual_edges, e]), 0, 1)
+            # a dual edge of a pinched boundary may have more than two dual vertices
+            de, dv = dual_topology[0].T.nonzero()
+            e = np.moveaxis(np.array([dual_edges[de], dual_vertices[dv]]), 0, 1)
             lc = matplotlib.collections.LineCollection(e[...,:2], color=dual_color, alpha=0.5)
             ax.add_collection(lc)
 
diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 4c209ac..f89eab8 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -57,15 +57,9 @@ class ComplexSimplicialEuclidian(BaseComplexSimplicial):
             dual_vertices, dual_edges = self.dual_position[0:2]
             if plot_lines:
                 dual_topology = self.topology.dual
-                from pycomplex.topology.util import sparse_to_elements
-                de = sparse_to_elements(dual_topology[0].T)
-
-                de = dual_vertices[de]
-                s, e = de[:, 0], de[:, 1]
-                s = np.moveaxis(np.array([dual_edges, s]), 0, 1)
-                lc = matplotlib.collections.LineCollection(s[..., :2], color=dual_color, alpha=0.5)
-                ax.add_collection(lc)
-                e = np.moveaxis(np.array([dual_edges, e]), 0, 1)
+                # a dual edge of a pinched boundary may have more than two dual vertices
+                de, dv = dual_topology[0].T.nonzero()
+                e = np.moveaxis(np.array([dual_edges[de], dual_vertices[dv]]), 0, 1)
                 lc = matplotlib.collections.LineCollection(e[..., :2], color=dual_color, alpha=0.5)
                 ax.add_collection(lc)
 
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 92ff192..7ab420a 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -94,14 +94,9 @@ class ComplexSpherical(BaseComplexSimplicial):
             # plot dual edges
             dual_vertices, dual_edges = self.dual_position[:2]
             dual_topology = self.topology.dual
-            from pycomplex.topology.util import sparse_to_elements
-            de = sparse_to_elements(dual_topology[0].T)
-
-            de = dual_vertices[de]
-            s, e = de[:, 0], de[:, 1]
-            s = subdivide(from_se(dual_edges, s), steps=steps)
-            plot_edge(ax, s, color=dual_color, alpha=0.5)
-            e = subdivide(from_se(dual_edges, e), steps=steps)
+            # a dual edge of a pinched boundary may have more than two dual vertices
+            de, dv = dual_topology[0].T.nonzero()
+            e = subdivide(from_se(dual_edges[de], dual_vertices[dv]), steps=steps)
             plot_edge(ax, e, color=dual_color, alpha=0.5)
             if plot_vertices:
                 plot_vertex(ax, dual_vertices, color=dual_color)
-- 
2.43.0


From bf1bee47ab158e04504477eea430f9ef59b9aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:11 +0000
Subject: [PATCH 71/76] fix: smoothing a complex with integer vertex positions
 truncated the smoothed positions

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 40ab4d8..b544d7b 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -170,8 +170,8 @@ class BaseComplex(object):
             for n, c in creases.items():
                 C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c
 
-        # accumulate new vertex positions
-        vertices = self.vertices.copy()
+        # accumulate new vertex positions; means of integer positions are fractional
+        vertices = self.vertices.astype(self.vertices.mean().dtype)
         # start with n-elements, working backwards to vertices
         for corners, cr in reversed(list(zip(self.topology.corners, C))):
             if cr is not None:
-- 
2.43.0


From de39631cb38c80d45d1c2802f7608850e0f8fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 72/76] fix: normals of segments with integer corners were
 truncated

---
 pycomplex/geometry/euclidian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 6440ae9..b6797a2 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -355,15 +355,15 @@ def segment_normals(corners):
     corners = np.asarray(corners)
     n_corners, n_dim = corners.shape[-2:]
     assert n_corners == n_dim
-    normals = np.empty_like(corners[..., 0])
+    normals = []
 
     corners = corners[..., 1:, :] - corners[..., 0:1, :]
 
     sign = 1
     for c in range(n_corners):
-        normals[..., c] = np.linalg.det(np.delete(corners, c, axis=-1)) * sign
+        normals.append(np.linalg.det(np.delete(corners, c, axis=-1)) * sign)
         sign = -sign
-    return normals
+    return np.stack(normals, axis=-1)
 
 
 def simplex_normals(corners):
-- 
2.43.0


From 52b4195f21bc203643d22bff6d7b1d8e5813ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 73/76] fix: averaging an integer stencil form truncated the
 averages

---
 pycomplex/stencil/topology.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/stencil/topology.py b/pycomplex/stencil/topology.py
index 503fe0c..6d1bd6d 100755
--- a/pycomplex/stencil/topology.py
+++ b/pycomplex/stencil/topology.py
@@ -218,7 +218,8 @@ class StencilTopology(object):
             stencils = [stencil(a) for a in self.symbols[n]]
 
             def inner(f0):
-                output = self.form(n, dtype=f0.dtype)
+                # averages of integers are fractional
+                output = self.form(n, dtype=np.result_type(f0, np.float32))
                 for i, stencil in enumerate(stencils):
                     ndimage.convolve(f0[0], stencil, output[i], mode='wrap')
                 return output
-- 
2.43.0


From d7da669fac1c33f2d47340286c8aad038fdd24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:40 +0000
Subject: [PATCH 74/76] fix: the circumcenter of a simplex depended on the
 other simplices of its batch

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index b6797a2..17498a4 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -163,7 +163,7 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
 
     v, w = np.linalg.eigh(A)
     vr = 1 / v
-    vr[np.abs(vr) > np.abs(vr).min() * ratio] = 0
+    vr[np.abs(vr) > np.abs(vr).min(axis=-1, keepdims=True) * ratio] = 0
     pinv = np.einsum('...ij,...j,...kj', w, vr, w)
 
     b = np.ones(gu + (N,))
-- 
2.43.0


From 3594e7c8993da6768dadbd9f705bc52c42428f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:56 +0000
Subject: [PATCH 75/76] fix: areas around the centre of a spherical triangle
 refused batches that have not two axes

---
 pycomplex/geometry/spherical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index ba76818..9f73e93 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -77,9 +77,9 @@ def triangle_areas_around_center(center, corners):
     """
     areas = np.empty(corners.shape[:-1])
     for i in range(3):
-        areas[:,:,i] = triangle_area_from_corners(center, corners[:,:,i-2], corners[:,:,i-1])
+        areas[..., i] = triangle_area_from_corners(center, corners[..., i-2, :], corners[..., i-1, :])
     #swivel equilaterals to vonoroi parts
-    return (areas.sum(axis=2)[:,:,None]-areas) / 2
+    return (areas.sum(axis=-1)[..., None] - areas) / 2
 
 
 def unsigned_volume(pts):
-- 
2.43.0


From 350137adeeea2d06da6df6d1ea23af876971cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:49 +0000
Subject: [PATCH 76/76] fix: the smoothing operator moved vertices that no
 element has influence on to the origin

---
 pycomplex/complex/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index b544d7b..cfdcd51 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -223,6 +223,8 @@ class BaseComplex(object):
 
         A = self.topology.averaging_operators_0
         smoothers = [scipy.sparse.diags(s) * a.T * scipy.sparse.diags(c) * a for a, s, c in zip(A, S, C)]
+        # vertices that no element has influence on stay where they are
+        smoothers.append(scipy.sparse.diags((S == 0).all(axis=0).astype(float)))
         return normalize_l1(sum(smoothers), axis=1)
 
     @cached_property
-- 
2.43.0

