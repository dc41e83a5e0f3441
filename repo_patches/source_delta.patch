From 43bd113ca03f88f7b3de3de570ad0690a0d32801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 01/40] fix: crystal router keeps the data on a single device
 mesh

No stage runs when the axis has one index, so the maximum dynamic length was
left at zero and the returned arrays were truncated to length zero.
---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..704a417 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -367,7 +367,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # With a single device there are no stages, so nothing is moved.
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From bbc19c677a352a1445619d48c7aa86ae97197cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 02/40] fix: crystal router accepts leaves with trailing
 dimensions

The documentation allows data leaves of different shapes, but concatenation
used a single start index for arrays of any rank.
---
 swirl_fem/communication/crystal_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 704a417..99cd4ce 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,7 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice_in_dim(a, b, self.n, axis=0)
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From f56fc134ed098ae24992b19f5291196896b2ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 03/40] fix: jit_distributed accepts static arguments anywhere
 in the signature

shard_map takes no keyword arguments, so a static argument ahead of a sharded
one, or a sharded keyword-only argument, could not be called.
---
 swirl_fem/communication/jit_distributed.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..32531c2 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 """JIT compilation of a distributed computation."""
+import collections
 import functools
 import inspect
 from typing import Callable, Sequence
@@ -83,9 +84,16 @@ def jit_distributed(
   def pmapped(*args, **kwargs):
     nonsharded = bind(nonsharded_args, *args, **kwargs)
     sharded = bind(sharded_args, *args, **kwargs)
-    if sharded.args or sharded.kwargs:
-      g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+    if jax.tree_util.tree_leaves(sharded.arguments):
+      # shard_map and vmap only accept positional arguments, while the static
+      # arguments may appear anywhere in the signature. So map over a single
+      # dict of the sharded arguments, and put the call to `f` back together.
+      def g(sharded_arguments):
+        arguments = {**nonsharded.arguments, **sharded_arguments}
+        bound = inspect.BoundArguments(
+            sig, collections.OrderedDict((x, arguments[x]) for x in sig.parameters))
+        return f(*bound.args, **bound.kwargs)
+      return shmap(jax.vmap(g, in_axes=0))(dict(sharded.arguments))
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From d39efe0a45983eaafee7ed89272d1c68b3291bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 04/40] fix: refine shared faces which are rotated by 90
 degrees

The permutation of the nodes of an already refined face was looked up by the
inverse of the face's relative orientation. Those agree for all orientations
but the quarter turns, which put the interior nodes of the face in the wrong
place for one of the two elements.
---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From ea80393aca662410eeafc415ce73b8b46b4d0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 05/40] fix: keep node coordinates of partitioned periodic
 meshes

The coordinates were looked up after mapping nodes to their periodic
representative, so elements touching the far side of a periodic boundary were
stretched back across the whole domain.
---
 swirl_fem/core/premesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..730bf68 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -191,6 +191,10 @@ class Premesh:
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
 
+    # The coordinates of a node are those of the node itself, and not of the
+    # node it's identified with by the periodic links.
+    node_coords = self.node_coords[node_indices]
+
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
         node_indices, periodic_links=self.periodic_links)
@@ -214,7 +218,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From 8f50bb9e9eee6733c81cc7b05522864347aa123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 06/40] fix: physical masks of groups on the far side of a
 periodic boundary

The node indices are deduped using the periodic links but the nodes of the
group were not, so a node was only masked if its representative happened to be
listed in the group.
---
 swirl_fem/core/premesh.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index 730bf68..8e62797 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -28,9 +28,16 @@ from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh import Mesh
 
 
-def _mask(facets, node_indices: np.ndarray) -> np.ndarray:
+def _mask(
+    facets,
+    node_indices: np.ndarray,
+    periodic_links: np.ndarray | None,
+) -> np.ndarray:
   """Returns a boolean mask of which `node_indices` are contained in facets."""
   indices = np.array(list(set(facets.flatten().tolist())), dtype=np.int32)
+  # `node_indices` are deduped using the periodic links, so do the same here.
+  if indices.size:
+    indices = gather_scatter.get_unique_node_indices(indices, periodic_links)
   return np.isin(node_indices, indices)
 
 
@@ -154,7 +161,13 @@ class Premesh:
           node_indices=np.arange(self.num_nodes, dtype=np.int32),
           periodic_links=self.periodic_links)
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(
+              _mask,
+              node_indices=node_indices,
+              periodic_links=self.periodic_links,
+          ),
+          self.physical_groups,
+      )
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -207,7 +220,13 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(
+            _mask,
+            node_indices=node_indices,
+            periodic_links=self.periodic_links,
+        ),
+        self.physical_groups,
+    )
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0


From 0b1181040d9073a5f25c72b80ac4524775bc1972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 07/40] fix: integrals over unevenly partitioned meshes are not
 NaN

Partitions with fewer elements than the largest are padded with elements that
have no nodes. Their jacobian is zero, and its inverse turned every integral
of a gradient into NaN.
---
 swirl_fem/core/fespace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..f0ff032 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -23,6 +23,7 @@ from jax import vmap
 import jax.numpy as jnp
 from jax.custom_batching import custom_vmap
 
+from swirl_fem.core.gather_scatter import SENTINEL
 from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Quadrature1D
 from swirl_fem.core.mesh import Mesh
@@ -339,11 +340,19 @@ class FiniteElementSpace:
                       interpolator.interpolation_matrix_grad(),
                       precision=lax.Precision.HIGHEST)
 
+    # Elements which pad an uneven partitioning have no nodes, and a singular
+    # jacobian. Make them invertible and give them zero volume, so that they
+    # don't turn integrals into NaNs.
+    is_padding = jnp.all(mesh.elements == SENTINEL, axis=-1)
+    jacs = jnp.where(is_padding[:, jnp.newaxis, jnp.newaxis, jnp.newaxis],
+                     jnp.eye(mesh.ndim, dtype=jacs.dtype), jacs)
+
     # Next, for each element and each quadrature point within an element,
     # compute the `d x d` matrix inverse and its determinant. We vmap first over
     # the elements, and second over the quadrature nodes.
     invjacs = vmap(vmap(jnp.linalg.inv))(jacs)
     jacdets = vmap(vmap(jnp.linalg.det))(jacs)
+    jacdets = jnp.where(is_padding[:, jnp.newaxis], 0, jacdets)
     return cls(mesh=mesh, quadrature=quadrature, interpolator=interpolator,
                invjacs=invjacs, jacdets=jacdets, quad_coords=quad_coords)
 
-- 
2.43.0


From 44dbfb6f2260a7ec069c7d0a54ccd5134996d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 08/40] fix: read periodic links of multiply periodic Gmsh
 meshes

The source to target mapping of all periodic surfaces was merged into one, so
nodes on the edges shared by two of them were linked to the target of the last
one read, and the facets touching those edges to facets that do not exist.
---
 swirl_fem/common/mesh_reader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..7a9313b 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -56,21 +56,24 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
     See documentation of `Premesh` for the detailed specification.
   """
   # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  # connection in the mesh among entities of dimension `ndim - 1`. Keep them
+  # separate, as a node on an edge or a corner shared by multiple periodic
+  # entities has a different target in each of them.
+  src_tgt_mappings = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
+    src_tgt_mappings.append(dict(node_pairs.tolist()))
 
   # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
   # facet. If so, save it as a periodic link.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
   periodic_links = []
   for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+    for src_tgt_mapping in src_tgt_mappings:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))  # pylint: disable=cell-var-from-loop
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
   return np.stack(periodic_links, dtype=np.int32)
 
-- 
2.43.0


From ccffb152c8e2b2801f5cd7d080b2a6a1c673bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 09/40] fix: partitioned premesh can be finalized

The partitioner returned the raw (non-numpy) array of pymetis, which
Premesh.finalize() does not accept.
---
 swirl_fem/common/mesh_partitioner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swirl_fem/common/mesh_partitioner.py b/swirl_fem/common/mesh_partitioner.py
index 15838c2..e20aa3b 100644
--- a/swirl_fem/common/mesh_partitioner.py
+++ b/swirl_fem/common/mesh_partitioner.py
@@ -15,6 +15,7 @@
 """Partitions a mesh using metis for distributed computations."""
 
 import networkx as nx
+import numpy as np
 import pymetis
 from swirl_fem.core.premesh import Premesh
 
@@ -50,4 +51,6 @@ def partition(premesh: Premesh, num_partitions: int) -> Premesh:
   # Partition the graph into `num_partitions` parts
   _, partitions = pymetis.part_graph(num_partitions, adjacency=adjlist)
 
+  partitions = np.array(partitions, dtype=np.int32)
+
   return premesh.replace(partitions=partitions)  # pyrefly: ignore[missing-attribute]
-- 
2.43.0


From 355a886aafcb4d7f79b089e25dc12e6b621760d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 10/40] fix: vorticity agrees on all periodic copies of a node

The gradient is discontinuous across elements and averaged at the nodes, but
the elements on the other side of a periodic boundary were left out.
---
 swirl_fem/navier_stokes/navier_stokes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..8cb0a3d 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -491,4 +491,7 @@ class StokesSEM:
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-    return (1. / self.velocity.diag_qqt) * vmesh.scatter(vort_local)
+    # Average over all of the elements at a node, including those it's connected
+    # to by a periodic link.
+    return vmesh.exchange(vmesh.scatter(vort_local)) / vmesh.exchange(
+        self.velocity.diag_qqt)
-- 
2.43.0


From 7a0e71f3a7a7c4cf70f5fa87c9d36c4f938c6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 11/40] fix: sign of the vorticity

The first index of the gradient of a vector function is the direction of the
derivative, so a counterclockwise rotation had negative vorticity.
---
 swirl_fem/navier_stokes/navier_stokes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8cb0a3d..b5e79fc 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -487,7 +487,8 @@ class StokesSEM:
 
     def _vorticity(x: jax.Array):
       grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      # grad_ux[j, i] is the derivative of the ith component along the jth axis.
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From a942b9fa5ac7a6140cdd9f4f38f36d37db4af401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 12/40] fix: first order time stepping of the Stokes system

A sequence of `time_order` pressures has a single entry for first order, and
was indexed out of bounds by the linear extrapolation.
---
 swirl_fem/navier_stokes/navier_stokes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index b5e79fc..546d4a7 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -419,8 +419,8 @@ class StokesSEM:
     if pressure_preconditioner is None and project_out_nullspace:
       pressure_preconditioner = partial(_pressure_project_out_nullspace, self)
 
-    # Extrapolate pressure linearly.
-    ext_coeffs = extk_coeffs(k=1)
+    # Extrapolate pressure linearly (or as a constant, given a single one).
+    ext_coeffs = extk_coeffs(k=1) if len(ps) > 1 else np.ones(1)
     p_ext = sum(
         ext_coeffs[-i] * ps[-i] for i in range(1, len(ext_coeffs) + 1))
     f = f + self.Dt(p_ext)  # pyrefly: ignore[bad-argument-type]
-- 
2.43.0


From f78b44be21bbc55b648afcdf4f95257b63429bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 13/40] fix: exchange nodal values in their own dtype

The sum over the periodic copies of a node was accumulated in the default
floating point type, which loses the low bits of integers and the imaginary
part of complex numbers.
---
 swirl_fem/core/gather_scatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..a24e3f1 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -239,7 +239,8 @@ def exchange(
     # TODO(anudhyan): Add `num_unique` to the ExchangeInfo struct as metadata
     # to make this static computation more transparent.
     num_unique_nodes = 1 + unique_indices.max()
-    updates = jnp.zeros(num_unique_nodes).at[unique_indices].add(initial_values)
+    updates = jnp.zeros(num_unique_nodes, dtype=u.dtype).at[unique_indices].add(
+        initial_values)
   else:
     updates = initial_values
 
-- 
2.43.0


From 51f8b0e1bb29d05bc78466a60fb11cae8e24db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 14/40] fix: scan of the maximum and minimum of infinite values

The largest finite number is not a unit of the minimum, as it's less than
infinity; similarly for the maximum.
---
 swirl_fem/communication/pscan.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..8fa2576 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -32,10 +32,9 @@ def _dtype_range(dtype: jnp.dtype):
 
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
+    return (info.min, info.max)
   else:
-    info = jnp.finfo(dtype)
-
-  return (info.min, info.max)
+    return (-jnp.inf, jnp.inf)
 
 
 # Mapping to monoid unit (given dtype) of supported ops
-- 
2.43.0


From aeb0229fd2cb72cf1db7d429e0f03b7a70a02317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 15/40] fix: replace jax.tree_map, which no longer exists, in
 niles

---
 swirl_fem/niles/input_pipeline.py | 2 +-
 swirl_fem/niles/train.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index 347ae66..c02574f 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -85,7 +85,7 @@ def _read_and_parse(
       windows.append(arr[i:i + window_size:window_step])
     return np.stack(windows)
 
-  return jax.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
+  return jax.tree_util.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
 
 
 def create_split(
diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3de5126..e8f7a92 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -294,7 +294,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
   aux = carry[-1]
   kl_path = aux['kl_path']
   kl_q0 = aux['kl_q0']
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree_util.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
   preds = jnp.moveaxis(preds, source=0, destination=1)
   logging.info('preds.shape: %s', preds.shape)
 
@@ -345,7 +345,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
       'z1_stds': jnp.abs(aux['z1_stds']).mean(axis=0),
       'tke_err': tke_error.mean(axis=0),
   }
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree_util.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
   return loss, aux
 
 
@@ -370,7 +370,7 @@ def compute_metrics(loss, aux, train: bool):
     metrics['mse@64'] = aux['mse'][64 - 1]
     metrics['mse@128'] = aux['mse'][128 - 1]
 
-  logging.info('metrics: %s', jax.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
+  logging.info('metrics: %s', jax.tree_util.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
   metrics = lax.pmean(metrics, axis_name='batch')
   return metrics
 
-- 
2.43.0


From 3fff4f77eee416b5dd7cc84e8e3d2f04c70f23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 16/40] fix: data generation runs

StokesSEM is not a valid argument of a jitted function, and stokes_one_step()
returns three values.
---
 swirl_fem/niles/datagen/datagen.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..5e9115f 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+import functools
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -97,8 +97,8 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
-                             time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+                                time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
 
@@ -132,9 +132,11 @@ def one_cycle(sem: navier_stokes.StokesSEM,
 
   start_time = time.time()
   Cus = tuple(map(sem.C, us))
+  # `sem` is not a pytree, so bind it rather than passing it to the jitted fn.
+  solve_one_step = jax.jit(functools.partial(_solve_one_step, sem))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From 436356d3d2ad95791f03637ffdef4a2bbea786d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 17/40] fix: local and global view of a sum of conditions agree

---
 swirl_fem/communication/semi_traced_scalar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swirl_fem/communication/semi_traced_scalar.py b/swirl_fem/communication/semi_traced_scalar.py
index 955f823..8460b65 100644
--- a/swirl_fem/communication/semi_traced_scalar.py
+++ b/swirl_fem/communication/semi_traced_scalar.py
@@ -56,6 +56,11 @@ class SemiTracedScalar:
   local: ArrayLike  # local value of scalar, potentially a tracer
   global_: np.ndarray  # global value of scalar across mapped axis, concrete
 
+  def __post_init__(self):
+    # Sums of Python bools are integers, unlike those of the global view.
+    if isinstance(self.local, bool):
+      object.__setattr__(self, 'local', np.bool_(self.local))
+
   # signal to pytype that additional methods (the overloaded arithmetic and
   # comparison operators) are added below the class definition
   _HAS_DYNAMIC_ATTRIBUTES = True
-- 
2.43.0


From 48af8b5887c9db3d6065226884925311d5e8570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 18/40] fix: missing entries do not spread NaNs

---
 swirl_fem/core/gather_scatter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index a24e3f1..456785d 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -129,8 +129,9 @@ def gather(u, indices, fill_value=SENTINEL):
 
 def scatter(u: jax.Array, indices: jax.Array, num_nodes: int) -> jax.Array:
   assert u.shape == indices.shape, f'Got: {u.shape} v/s {indices.shape}'
-  mask = indices != SENTINEL
-  return jnp.zeros(num_nodes, dtype=u.dtype).at[indices].add(mask * u)
+  # Select rather than multiply by the mask, as that would let through NaNs.
+  u = jnp.where(indices != SENTINEL, u, jnp.zeros_like(u))
+  return jnp.zeros(num_nodes, dtype=u.dtype).at[indices].add(u)
 
 
 def get_unique_node_indices(
@@ -228,8 +229,11 @@ def exchange(
   # able to have `unique_indices` be partitioned as set it to the globally
   # unique index of each gathered index.
   mask = gather_indices != SENTINEL
-  # Indexing with the sentinel value gets masked out and set to zeros.
-  initial_values = mask * u[gather_indices]
+  # Indexing with the sentinel value gets masked out and set to zeros. Select
+  # rather than multiply by the mask, as that would let through NaNs.
+  initial_values = u[gather_indices]
+  initial_values = jnp.where(
+      mask, initial_values, jnp.zeros_like(initial_values))
 
   # If unique indices are set, further consolidate into a smaller set of
   # indices.
@@ -259,7 +263,9 @@ def exchange(
   # corresponding values being added are zero; for instance, `gather_indices[i]`
   # has a sentinel if the current partition doesn't have the ith global dof.
   # The mask zeros out these positions as `updates[i]` is generally not zero.
-  return u.at[gather_indices].add(mask * (updates - initial_values))
+  updates = jnp.where(
+      mask, updates - initial_values, jnp.zeros_like(initial_values))
+  return u.at[gather_indices].add(updates)
 
 
 def _get_periodic_mapping(periodic_links: np.ndarray | None) -> dict[int, int]:
-- 
2.43.0


From e3c2a83e0ab2a5f464d15f2df931e2531e8ed81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 19/40] fix: interpolate next to a grid point without overflow

The reciprocal of a distance below 1e-308 is infinite, which made the row of
the interpolation matrix NaN.
---
 swirl_fem/core/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/interpolation.py b/swirl_fem/core/interpolation.py
index 1e02475..a21a2be 100644
--- a/swirl_fem/core/interpolation.py
+++ b/swirl_fem/core/interpolation.py
@@ -221,7 +221,11 @@ class BarycentricInterpolator:
       # arithmetic. See section 7 of Berrut and Trefethen [1].
       if x == nodes[i]:
         return 1.
-      terms = np.array([w / (x - xj) for w, xj in zip(weights, nodes)])
+      if x in nodes:
+        return 0.
+      # Scale by the smallest distance, as its reciprocal could overflow.
+      dist = min(x - nodes, key=abs)
+      terms = np.array([w * (dist / (x - xj)) for w, xj in zip(weights, nodes)])
       return terms[i] / sum(terms)
 
     row = lambda x: np.array([evaluate(x, i) for i in range(len(nodes))])
-- 
2.43.0


From c8ea29d84b26b83f95cffbc85c8e4a1fa0d8f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 20/40] fix: list periodic facets of 3D mesh files
 lexicographically

They were in the cyclic order of Gmsh, and refining the mesh failed as their
edges were taken to be the diagonals.
---
 swirl_fem/common/mesh_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 7a9313b..5652ff4 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -69,7 +69,10 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
   # facet. If so, save it as a periodic link.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
   periodic_links = []
-  for facet_elem in mesh.cells_dict[facet_elem_type]:
+  # Like the elements, the facets must have the lexicographic ordering.
+  facet_elems = mesh.cells_dict[facet_elem_type][
+      :, _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
+  for facet_elem in facet_elems:
     for src_tgt_mapping in src_tgt_mappings:
       if all(x in src_tgt_mapping for x in facet_elem):
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))  # pylint: disable=cell-var-from-loop
-- 
2.43.0


From a13bacb5dbf34b0e3c859fd58b22e626e613270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 21/40] fix: read mesh files with periodic entities of lower
 dimension only

There are then no periodic facets, and stacking them failed.
---
 swirl_fem/common/mesh_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 5652ff4..7c997a4 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -44,7 +44,7 @@ _NODE_ORDERING_PERMUTATIONS = {
 }
 
 
-def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
+def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray | None:
   """Obtains periodic links from the meshio Mesh.
 
   Args:
@@ -53,7 +53,8 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
 
   Returns:
     An array with a list of pairs of facets which share a periodic connection.
-    See documentation of `Premesh` for the detailed specification.
+    See documentation of `Premesh` for the detailed specification. None if there
+    are no such facets.
   """
   # Create the mapping from source nodes to target nodes for every periodic
   # connection in the mesh among entities of dimension `ndim - 1`. Keep them
@@ -78,6 +79,9 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))  # pylint: disable=cell-var-from-loop
         periodic_links.append(np.stack([facet_elem, target_elem]))
 
+  # Only entities of lower dimension may be periodic.
+  if not periodic_links:
+    return None
   return np.stack(periodic_links, dtype=np.int32)
 
 
-- 
2.43.0


From 628133747d94296e04ab8b8b72590689afc583ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 22/40] fix: don't return NaNs from conjugate gradients when
 the residual underflows

---
 swirl_fem/linalg/cg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/linalg/cg.py b/swirl_fem/linalg/cg.py
index e26b033..9d5b34f 100644
--- a/swirl_fem/linalg/cg.py
+++ b/swirl_fem/linalg/cg.py
@@ -75,7 +75,11 @@ def cg(
   def body_fun(value):
     x, r, gamma, p, k = value
     Ap = A(p)
-    alpha = gamma / _vdot(p, Ap, dot_fn=dot_fn).astype(dtype)
+    pAp = _vdot(p, Ap, dot_fn=dot_fn).astype(dtype)
+    # The inner product underflows if the residual is tiny, which is the case
+    # when asking for more than the precision at hand (e.g. if `b` is zero, but
+    # not `x0`). Don't take a step then, instead of returning NaNs.
+    alpha = jnp.where(pAp == 0, 0, gamma / pAp)
 
     x_ = tree_map(operator.add, x, tree_map(partial(operator.mul, alpha), p))
     r_ = tree_map(operator.sub, r, tree_map(partial(operator.mul, alpha), Ap))
-- 
2.43.0


From 2272f2b234ba57a2d669e13f5e8fcf00a43038eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 23/40] fix: refine a 3D mesh to a single point per element

---
 swirl_fem/core/mesh_refiner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 3a558ec..935f723 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -110,9 +110,10 @@ class _MeshRefiner:
     # of the refinement order.
     self._dim_to_orderings_mapping: MutableMapping[
         int, MutableMapping[tuple[int, ...], list[int]]] = {}
-    for k in range(1, premesh.ndim):
-      self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
-          ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
+    if self.gridpoints_1d.is_continuous():
+      for k in range(1, premesh.ndim):
+        self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
+            ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
 
   def _num_target_points(self):
     return self.gridpoints_1d.num_points
-- 
2.43.0


From 56e393c17a4382ceb5b3426806d34249e3736e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 24/40] fix: take the geometry of the pressure space from the
 mesh (order 2 had zero volume)

---
 swirl_fem/navier_stokes/navier_stokes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 546d4a7..80db8f3 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -20,6 +20,7 @@
 """
 
 from collections.abc import Sequence
+import dataclasses
 import enum
 from functools import partial
 from typing import Any
@@ -118,6 +119,13 @@ class StokesPressure:
         num_points=order - 1, node_type=NodeType.GAUSS_LEGENDRE)
     pmesh = refine_premesh(premesh, gridpoints_1d=gridpoints_1d).finalize()
     pspace = FiniteElementSpace.create(mesh=pmesh, quadrature=quadrature)
+    # Use the geometry of the given mesh, since the pressure nodes don't
+    # determine it if there's just one in each element (that is for order 2).
+    geometry = FiniteElementSpace.create(
+        mesh=premesh.finalize(), quadrature=quadrature)
+    pspace = dataclasses.replace(
+        pspace, invjacs=geometry.invjacs, jacdets=geometry.jacdets,
+        quad_coords=geometry.quad_coords)
     return cls(pspace=pspace)
 
   def gather(self, p: jax.Array) -> jax.Array:
-- 
2.43.0


From a9e6d9a011fac422175d7bf567f3e2c0d3c48da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 25/40] fix: keep the pressure solve from diverging if the
 velocity is divergence-free

The right hand side is only rounding errors then, and its part outside of the
range of the operator can be as large as the rest. The preconditioner isn't
symmetric on it, so that CG didn't converge: on a periodic 2x2 box of order 3, a
step changed a uniform flow by 90% and returned a pressure of 2e6 (float32,
default tolerance).
---
 swirl_fem/navier_stokes/navier_stokes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 80db8f3..bc6a767 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -424,7 +424,8 @@ class StokesSEM:
         * The pressure field at the next time step.
         * A dictionary of auxiliary information.
     """
-    if pressure_preconditioner is None and project_out_nullspace:
+    project_rhs = pressure_preconditioner is None and project_out_nullspace
+    if project_rhs:
       pressure_preconditioner = partial(_pressure_project_out_nullspace, self)
 
     # Extrapolate pressure linearly (or as a constant, given a single one).
@@ -454,8 +455,16 @@ class StokesSEM:
     u_star = self.filter(u_star, alpha=alpha)
 
     # Obtain dp by solving DQDᵀ(dp) = -Du*.
+    rhs = -self.D(u_star)
+    if project_rhs:
+      # Remove the part of the right hand side outside of the range of E. It's
+      # due to rounding, but not small compared to the rest if u* is already
+      # divergence-free; the solver would diverge then.
+      q = jnp.ones_like(rhs)
+      bq = self.pressure.B(q)
+      rhs = rhs - (jnp.vdot(q, rhs) / jnp.vdot(q, bq)) * bq
     dp, info = lax.custom_linear_solve(
-        partial(self.E, dt=dt, time_order=time_order), -self.D(u_star),
+        partial(self.E, dt=dt, time_order=time_order), rhs,
         solve=partial(cg, M=pressure_preconditioner, tol=tol, atol=atol),
         symmetric=True, has_aux=True)
     aux['dp_info'] = info
-- 
2.43.0


From d7e7957ee0405ebe16fd831b26da6527ecaf4a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 26/40] fix: make the velocity solve accurate on periodic
 meshes

The residuals of the copies of a node only cancelled each other, so that the
rounding errors of their sum limited the relative accuracy to the square root of
the machine precision. CG went on and diverged if the tolerance was below that,
which it is by default with float32: on a periodic 2x2 box of order 4 the error
of a step was up to 3e4 for a velocity of one.
---
 swirl_fem/navier_stokes/navier_stokes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index bc6a767..24ff889 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -442,9 +442,18 @@ class StokesSEM:
     if u_boundary is not None:
       f = f - H_(u_boundary)
 
+    # Solve for the sums over all copies of a node, and keep the residuals of the
+    # copies equal. If the residuals had to cancel each other, their rounding
+    # errors would limit the accuracy, and CG diverge if asked for more.
+    exchange = self.velocity.exchange
+    num_copies = exchange(jnp.ones_like(f))
+    def solve_h(h, b):
+      return cg(lambda u: exchange(h(u)), exchange(b), tol=tol, atol=atol,
+                M=lambda u: exchange(u) / num_copies,
+                dot_fn=lambda u, v: jnp.vdot(u / num_copies, v))
+
     u_star, info = lax.custom_linear_solve(
-        H_, f, solve=partial(cg, M=self.velocity.exchange, tol=tol, atol=atol),
-        symmetric=True, has_aux=True)
+        H_, f, solve=solve_h, symmetric=True, has_aux=True)
     if u_boundary is not None:
       u_star = u_star + u_boundary
 
-- 
2.43.0


From fd0d00d2a6e8e6ccfbcc5e46a0b9e602597e8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 27/40] fix: make reverse-mode derivatives of a flow step
 correct

Both solves are declared symmetric, but aren't outside of the velocities which
are zero on the Dirichlet boundary and the pressures of zero mean, where the
cotangents may well be. With Dirichlet boundaries, or if the pressure is used,
the derivatives were wrong by many orders of magnitude (or NaN).
---
 swirl_fem/navier_stokes/navier_stokes.py | 29 ++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 24ff889..e6a09d0 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -445,10 +445,13 @@ class StokesSEM:
     # Solve for the sums over all copies of a node, and keep the residuals of the
     # copies equal. If the residuals had to cancel each other, their rounding
     # errors would limit the accuracy, and CG diverge if asked for more.
+    # The operator is symmetric on velocities which are zero on the Dirichlet
+    # boundary only. That's so for `f` already, but not for its cotangents.
     exchange = self.velocity.exchange
     num_copies = exchange(jnp.ones_like(f))
     def solve_h(h, b):
-      return cg(lambda u: exchange(h(u)), exchange(b), tol=tol, atol=atol,
+      return cg(lambda u: exchange(h(u)),
+                exchange(self.velocity.interior_mask * b), tol=tol, atol=atol,
                 M=lambda u: exchange(u) / num_copies,
                 dot_fn=lambda u, v: jnp.vdot(u / num_copies, v))
 
@@ -464,18 +467,20 @@ class StokesSEM:
     u_star = self.filter(u_star, alpha=alpha)
 
     # Obtain dp by solving DQDᵀ(dp) = -Du*.
-    rhs = -self.D(u_star)
-    if project_rhs:
-      # Remove the part of the right hand side outside of the range of E. It's
-      # due to rounding, but not small compared to the rest if u* is already
-      # divergence-free; the solver would diverge then.
-      q = jnp.ones_like(rhs)
-      bq = self.pressure.B(q)
-      rhs = rhs - (jnp.vdot(q, rhs) / jnp.vdot(q, bq)) * bq
+    def solve_e(e, b):
+      if project_rhs:
+        # Remove the part of the right hand side outside of the range of E. It's
+        # due to rounding, but not small compared to the rest if u* is already
+        # divergence-free; the solver would diverge then. In cotangents it's
+        # what remains of the projection of the solution.
+        q = jnp.ones_like(b)
+        bq = self.pressure.B(q)
+        b = b - (jnp.vdot(q, b) / jnp.vdot(q, bq)) * bq
+      return cg(e, b, M=pressure_preconditioner, tol=tol, atol=atol)
+
     dp, info = lax.custom_linear_solve(
-        partial(self.E, dt=dt, time_order=time_order), rhs,
-        solve=partial(cg, M=pressure_preconditioner, tol=tol, atol=atol),
-        symmetric=True, has_aux=True)
+        partial(self.E, dt=dt, time_order=time_order), -self.D(u_star),
+        solve=solve_e, symmetric=True, has_aux=True)
     aux['dp_info'] = info
 
     Q_ = partial(self.Q, dt=dt, time_order=time_order)
-- 
2.43.0


From b93c55a6c872699a1a5a49e61a8a3f47db24d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 28/40] fix: take all steps of long paths in the SDE solver

Rounding errors in the accumulated time let the last steps be skipped.
---
 swirl_fem/sde/sdeint.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 580e84d..a05614c 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -114,17 +114,16 @@ def _sdeint(f, reverse, y0, ts, dw, *args):
   dt = (ts[1] - ts[0]) / len(dw)
 
   def step_fn(state, dw):
-    t, x = state
+    i, x = state
+    # Adding up `dt` instead would accumulate rounding errors, to more than a
+    # step for long paths.
+    t = ts[0] + i * dt
     drift, diff = f_(x, t, dw)
     _, diffh = f_(x + diff, t + dt, dw)
     x = x + drift * dt + .5 * (diff + diffh)
-    updated_state = lax.cond(
-        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (t + dt, x), lambda:
-        (t + dt, state[-1]))
-    return updated_state, None
+    return (i + 1, x), None
 
-  t0 = ts[0]  # if not reverse else -ts[1]
-  (_, x1), _ = lax.scan(step_fn, init=(t0, y0), xs=dw, reverse=reverse)
+  (_, x1), _ = lax.scan(step_fn, init=(0, y0), xs=dw, reverse=reverse)
   return x1
 
 
-- 
2.43.0


From fcb704d069edbc1a6b3ddb711f70f3db266604ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 29/40] fix: let the times of the SDE solver be a tuple of
 floats, as documented

---
 swirl_fem/sde/sdeint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index a05614c..f201f29 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -82,6 +82,7 @@ def sdeint(
     A tuple `(y1, path)`, where `y1` is the final state resulting from the
     integration; and `path` is the integration path.
   """
+  ts = jnp.asarray(ts)
   t0, touts = ts[0], ts[1:]
   segmented_dw = dw.reshape((len(touts), -1, *dw.shape[1:]))
 
-- 
2.43.0


From c1b4008561634f9eb29c41bdb93140bae7cbf257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 30/40] fix: differentiate SDE solutions if an argument is an
 integer or a random key

---
 swirl_fem/sde/sdeint.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index f201f29..35ffc80 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -157,27 +157,39 @@ def _sdeint_rev(f, reverse, res, y1_bar):
   """
   y1, ts, dw, args = res
 
-  def aug_f(aug_state, t, dw, *args):
+  # Arguments such as integers or random keys have no derivative.
+  leaves, treedef = jax.tree_util.tree_flatten(args)
+  is_diff = [jnp.issubdtype(jnp.result_type(x), jnp.inexact) for x in leaves]
+  select_diff = lambda leaves: [x for x, d in zip(leaves, is_diff) if d]
+
+  def merge_diff(diff, leaves):
+    diff = iter(diff)
+    return treedef.unflatten(
+        [next(diff) if d else x for x, d in zip(leaves, is_diff)])
+
+  def aug_f(aug_state, t, dw, *leaves):
     y, y_bar, *_ = aug_state
-    drift_fn = lambda y, *args: f(y, -t, dw, *args)[0]
-    diff_fn = lambda y, *args: f(y, -t, dw, *args)[1]
+    drift_fn = lambda y, diff: f(y, -t, dw, *merge_diff(diff, leaves))[0]
+    diff_fn = lambda y, diff: f(y, -t, dw, *merge_diff(diff, leaves))[1]
 
-    drift_dot, vjpfun = jax.vjp(drift_fn, y, *args)
+    drift_dot, vjpfun = jax.vjp(drift_fn, y, select_diff(leaves))
     drift_bar = (-drift_dot, *vjpfun(y_bar))
 
-    diff_dot, vjpfun = jax.vjp(diff_fn, y, *args)
+    diff_dot, vjpfun = jax.vjp(diff_fn, y, select_diff(leaves))
     diff_bar = (-diff_dot, *vjpfun(y_bar))
     return drift_bar, diff_bar
 
   # Run augmented system backwards.
-  aug_init_state = (y1, y1_bar, jax.tree_util.tree_map(jnp.zeros_like, args))
+  aug_init_state = (
+      y1, y1_bar, [jnp.zeros_like(x) for x in select_diff(leaves)])
   ts = (-ts[1], -ts[0])
 
   unused_y0, y_bar, args_bar = _sdeint_wrapper(
-      aug_f, not reverse, aug_init_state, ts, dw, *args)
+      aug_f, not reverse, aug_init_state, ts, dw, *leaves)
 
   # Note that the differential wrt `t` or `dw` is not implemented, so return
   # None for the corresponding cotangents.
+  args_bar = merge_diff(args_bar, [None] * len(leaves))
   return (y_bar, None, None, *args_bar)
 
 
-- 
2.43.0


From 32a276aa8a4bdf6297f1e9c856c66e81692d3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 31/40] fix: integrate modules without parameters

---
 swirl_fem/sde/flax_nn_sde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index 1e2027a..37ca499 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -65,7 +65,8 @@ def core_sdeint(
 
     def is_scope_initializing(s):
       vs = s.variables()
-      return 'params' not in vs or not vs['params']
+      return (s.is_mutable_collection('params')
+              and ('params' not in vs or not vs['params']))
     is_initializing = all(map(is_scope_initializing, scope))
 
     if is_initializing:
-- 
2.43.0


From b09fb6ea14c773f072b1b0ed7649de71df5867bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 32/40] fix: initialise integrated modules whose state is a
 tree

---
 swirl_fem/sde/flax_nn_sde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index 37ca499..5860d40 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -71,7 +71,8 @@ def core_sdeint(
 
     if is_initializing:
       drift, diffusion = fn(scope, x, ts[0], dw[0], *additional_args)
-      out = jnp.stack([drift + diffusion] * len(ts[1:]))
+      out = jax.tree_util.tree_map(
+          lambda u, v: jnp.stack([u + v] * len(ts[1:])), drift, diffusion)
       return out, repack_fn(scope)
     else:
       y_integrated = sdeint(
-- 
2.43.0


From 447629c81076dbc2715970b69fc5017b280f1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 33/40] fix: count the examples of all shards of the input
 pipeline

Windows do not extend beyond a shard, but the number of examples was computed
as if they did, so that it was too large and the examples were divided
unevenly among processes.
---
 swirl_fem/niles/input_pipeline.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index c02574f..f0a2451 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -48,14 +48,14 @@ def get_num_examples(
     split_name: tfds.Split, window_size: int, window_stride: int, debug: bool
 ):
   """Returns the total number of examples."""
-  num_examples = NUM_SPLIT_EXAMPLES[split_name]
-  if debug:
-    if split_name == tfds.Split.TRAIN:  # pyrefly: ignore[missing-attribute]
-      num_examples //= 24
-    else:
-      num_examples //= 4
-
-  return (num_examples - window_size) // window_stride + 1
+  if split_name == tfds.Split.TRAIN:  # pyrefly: ignore[missing-attribute]
+    num_shards = len(_TRAIN_SHARDS)
+  else:
+    num_shards = len(_VALID_SHARDS)
+  # windows do not extend beyond a shard
+  num_snapshots = NUM_SPLIT_EXAMPLES[split_name] // num_shards
+  num_windows = (num_snapshots - window_size) // window_stride + 1
+  return num_windows if debug else num_shards * num_windows
 
 
 def read_snapshots_file(file_path: epath.PathLike) -> dict[str, np.ndarray]:
-- 
2.43.0


From f154bc49bccfdd60099d8b42b0d5e583994ec457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 34/40] fix: extrapolation coefficients of order zero

Training with first order time stepping extrapolates the advection term from a
single state, which divided by zero.
---
 swirl_fem/navier_stokes/navier_stokes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index e6a09d0..70a3519 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -49,6 +49,8 @@ from swirl_fem.linalg.cg import cg
 
 def extk_coeffs(k: int) -> np.ndarray:
   """Linear extrapolation coefficients of order k."""
+  if k == 0:  # constant
+    return np.ones(1)
   gridpoints = Nodes1D.create(num_points=k + 1, node_type=NodeType.NEWTON_COTES)
   h = 2 / k
   evalpoints = Nodes1D.create_single_point(
-- 
2.43.0


From 93c76db4a157c5be9fe4e231cc022dc988a680d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:40 +0000
Subject: [PATCH 35/40] fix: transformer blocks could not be created

The initialisers and the activation of the MLP block lacked annotations, so
that they became methods which receive the module as an argument.
---
 swirl_fem/niles/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 9214ed2..125939f 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -69,9 +69,9 @@ class MlpBlock(nn.Module):
   mlp_dim: int
   out_dim: int | None = None
   use_bias: bool = True
-  kernel_init = nn.initializers.xavier_uniform()
-  bias_init = nn.initializers.normal(stddev=1e-6)
-  activation_fn = nn.gelu
+  kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
+  bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)
+  activation_fn: Callable[..., Any] = nn.gelu
   precision: jax.lax.Precision | None = None
   dtype: jnp.dtype = jnp.float32
 
-- 
2.43.0


From 9453e79fa860b44b684b0ecfa6490e0858713089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 36/40] fix: the correction model could not be called by the
 trainer, which passes train=

---
 swirl_fem/niles/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 125939f..ff75da1 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -477,6 +477,7 @@ class Model(nn.Module):
                inputs: jnp.ndarray,
                z_rng: jax.Array,
                *,
+               train: bool = False,
                debug: bool = False):
     """Applies Transformer model on the input x."""
     dtype = jax.dtypes.canonicalize_dtype(self.dtype)
-- 
2.43.0


From 4a2bc456a9072211117b8d286ad64fb1bf9ed01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 37/40] fix: the published configuration lacked entries which
 the model requires

---
 swirl_fem/niles/config/niles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swirl_fem/niles/config/niles.py b/swirl_fem/niles/config/niles.py
index 77971da..dec1726 100644
--- a/swirl_fem/niles/config/niles.py
+++ b/swirl_fem/niles/config/niles.py
@@ -44,6 +44,10 @@ def get_config():
   config.model.initial_kv_pooling_strides = (1, 4)
   config.model.pooling_strides_q = (1, 4)
   config.model.qkv_tile_reps = (4, 1)
+  # below are unused currently
+  config.model.num_layers = 1
+  config.model.num_heads = 1
+  config.model.freeze_encoder = False
 
   # SDE config. num_samples = 0 disables the processor
   config.model.processor_config = ml_collections.ConfigDict()
@@ -61,6 +65,7 @@ def get_config():
   config.model.processor_config.latent_size = config.model.width * 4
   config.model.processor_config.num_gridpoints = 16
   # below are unused currently in the transformer version
+  config.model.processor_config.num_layers = 1
   config.model.processor_config.num_sde_layers = 4
   config.model.processor_config.context_size = 32
   config.model.processor_config.hidden_size = 32
-- 
2.43.0


From 415590ee758ac10b2b79f4011297bbe45e525c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 38/40] fix: evaluation failed, as a mesh has no method to
 interpolate from another

---
 swirl_fem/niles/train.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index e8f7a92..c9a9163 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -39,6 +39,7 @@ import numpy as np
 import optax
 import scipy.spatial
 from swirl_fem.common import premesh_commons
+from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Nodes1D
 from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh_refiner import refine_premesh
@@ -59,11 +60,22 @@ def transfer_perm(source_mesh, target_mesh):
   return np.array(perm, dtype=np.int32)
 
 
+def interpolate_nodes(u, source_mesh, target_mesh):
+  """Interpolates nodal values to another mesh with the same elements."""
+  interpolator = BarycentricInterpolator(
+      ndim=source_mesh.ndim, gridpoints_1d=source_mesh.gridpoints_1d,
+      evalpoints_1d=target_mesh.gridpoints_1d)
+  u_local = jax.vmap(interpolator.interpolate)(source_mesh.gather(u))
+  return jnp.zeros(target_mesh.num_nodes, dtype=u.dtype).at[
+      target_mesh.elements].set(u_local)
+
+
 def get_tke(u, sem, uniform_mesh, first_order_perm, config):
   """Computes the turbulent kinetic energy (TKE) of a velocity field."""
   n = int(math.sqrt(config.num_nodes))
-  u_flat = jax.vmap(partial(uniform_mesh.interpolate,  # pytype: disable=attribute-error
-                            source_mesh=sem.velocity.mesh),
+  u_flat = jax.vmap(partial(interpolate_nodes,
+                            source_mesh=sem.velocity.mesh,
+                            target_mesh=uniform_mesh),
                     in_axes=-1, out_axes=-1)(u)
   u_flat = u_flat[first_order_perm]
   u_flat = u_flat.reshape((n, n, 2))
-- 
2.43.0


From ba4f91915e5710983a407af825a1a5ecaa7b8076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 39/40] fix: an integrated module sharing an initialised
 submodule got no parameters of its own

---
 swirl_fem/sde/flax_nn_sde.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index 5860d40..f610026 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -65,9 +65,12 @@ def core_sdeint(
 
     def is_scope_initializing(s):
       vs = s.variables()
-      return (s.is_mutable_collection('params')
+      return (s.is_mutable_collection('params') and s.has_rng('params')
               and ('params' not in vs or not vs['params']))
-    is_initializing = all(map(is_scope_initializing, scope))
+    # Submodules shared with other modules may have their parameters already.
+    is_initializing = (
+        any(s.get_flag('initializing', False) for s in scope)
+        or all(map(is_scope_initializing, scope)))
 
     if is_initializing:
       drift, diffusion = fn(scope, x, ts[0], dw[0], *additional_args)
-- 
2.43.0


From f000897a94001152dc3893aecc30a389fc341742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 40/40] fix: jit_distributed dropped mapped arguments without
 leaves

---
 swirl_fem/communication/jit_distributed.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index 32531c2..e7b9d04 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -84,22 +84,22 @@ def jit_distributed(
   def pmapped(*args, **kwargs):
     nonsharded = bind(nonsharded_args, *args, **kwargs)
     sharded = bind(sharded_args, *args, **kwargs)
+    # shard_map and vmap only accept positional arguments, while the static
+    # arguments may appear anywhere in the signature. So map over a single
+    # dict of the sharded arguments, and put the call to `f` back together.
+    def g(sharded_arguments):
+      arguments = {**nonsharded.arguments, **sharded_arguments}
+      bound = inspect.BoundArguments(
+          sig, collections.OrderedDict((x, arguments[x]) for x in sig.parameters))
+      return f(*bound.args, **bound.kwargs)
     if jax.tree_util.tree_leaves(sharded.arguments):
-      # shard_map and vmap only accept positional arguments, while the static
-      # arguments may appear anywhere in the signature. So map over a single
-      # dict of the sharded arguments, and put the call to `f` back together.
-      def g(sharded_arguments):
-        arguments = {**nonsharded.arguments, **sharded_arguments}
-        bound = inspect.BoundArguments(
-            sig, collections.OrderedDict((x, arguments[x]) for x in sig.parameters))
-        return f(*bound.args, **bound.kwargs)
       return shmap(jax.vmap(g, in_axes=0))(dict(sharded.arguments))
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-      def g(unused: jax.Array):
+      def h(unused: jax.Array):
         del unused
-        return f(*nonsharded.args, **nonsharded.kwargs)
-      return shmap(lambda: jax.vmap(g, in_axes=0)(jnp.array([0], jnp.int32)))()
+        return g(dict(sharded.arguments))
+      return shmap(lambda: jax.vmap(h, in_axes=0)(jnp.array([0], jnp.int32)))()
 
   return jax.jit(pmapped, static_argnames=static_argnames)
-- 
2.43.0

