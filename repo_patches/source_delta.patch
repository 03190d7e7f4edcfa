From c7ab76aa20ed5bc70db60ef82faacdb07bed60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 01/49] fix: Bellman-Ford path functions report missing paths
 and negative cycles as NetworkX exceptions

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 7 ++++++-
 graphblas_algorithms/nxapi/shortest_paths/weighted.py      | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..9dd37af 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -218,7 +218,10 @@ def bellman_ford_path(G, source, target):
         is_negative = G.get_property("has_negative_edges+")
         if not is_negative:
             p = _bfs_parent(G, source, target)
-            return _reconstruct_path_from_parents(G, p, src_id, dst_id)
+            path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
+            if not path:
+                raise NoPath(f"node {target} not reachable from {source}")
+            return path
         raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
@@ -291,6 +294,8 @@ def bellman_ford_path(G, source, target):
         if mask.get(dst_id):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
+    if not path:
+        raise NoPath(f"node {target} not reachable from {source}")
     if has_negative_diagonal and path:
         mask.clear()
         mask[G.list_to_ids(path)] = True
diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..f1f4754 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -64,6 +64,10 @@ def bellman_ford_path(G, source, target, weight="weight"):
         return algorithms.bellman_ford_path(G, source, target)
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
+    except exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def bellman_ford_path_length(G, source, target, weight="weight"):
@@ -74,6 +78,8 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
         raise NetworkXNoPath(*e.args) from e
+    except exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
 
 
 def negative_edge_cycle(G, weight="weight", heuristic=True):
-- 
2.43.0


From 4de0ddd2ee21a9b44ff04b572e3ad6bc327d5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 02/49] fix: iso_value property of a graph without edges, or
 when it is known not to be iso-valued

---
 graphblas_algorithms/classes/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..31e9b11 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -223,7 +223,8 @@ def is_iso(G, mask=None):
         else:
             # SuiteSparse:GraphBLAS. `A` may still be iso-valued even if `A.ss.is_iso` is False.
             # Should we check this or rely on `A.ss.is_iso` b/c it's fast and should usually work?
-            cache["is_iso"] = A.ss.is_iso
+            # A matrix without values may claim to be iso-valued, but it does not have an iso-value.
+            cache["is_iso"] = A.ss.is_iso and A.nvals > 0
     return cache["is_iso"]
 
 
@@ -236,11 +237,11 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
+                cache["iso_value"] = None
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-        elif A.ss.is_iso:
+        elif A.ss.is_iso and A.nvals > 0:
             cache["iso_value"] = A.ss.iso_value
             cache["is_iso"] = True
         else:
-- 
2.43.0


From 22bff8da5e9cb6a6887ed07c4ab3599877a77818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 03/49] fix: bellman_ford_path_length of an iso-valued graph
 returns a number

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 9dd37af..bfd9ad1 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -33,6 +33,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
                 d = d.get(dst_id)
                 if d is None:
                     raise NoPath(f"node {target} not reachable from {source}")
+                return d * iso_value.value
             if iso_value != 1:
                 d *= iso_value
             return d
-- 
2.43.0


From c803f91be4576aafc228f46b4bed782350d173c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 04/49] fix: bellman_ford_path_length detects every negative
 cycle that reaches the target

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index bfd9ad1..3433258 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -82,7 +82,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if dst_id is not None and not is_negative:
+        if dst_id is not None and not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
     else:
@@ -91,7 +91,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
-- 
2.43.0


From 0b143ba56d62fbd39808431761e57c2551852517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 05/49] fix: bellman_ford_path with negative edges, negative
 self-edges, and iso-valued negative graphs

---
 .../algorithms/shortest_paths/weighted.py     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 3433258..574ebc4 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -2,7 +2,7 @@ import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
-from .._bfs import _bfs_level, _bfs_levels, _bfs_parent, _bfs_plain
+from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
 from ..exceptions import NoPath, Unbounded
 
 __all__ = [
@@ -223,7 +223,12 @@ def bellman_ford_path(G, source, target):
             if not path:
                 raise NoPath(f"node {target} not reachable from {source}")
             return path
-        raise Unbounded("Negative cycle detected.")
+        # It's difficult to detect negative cycles with BFS
+        if G._A[src_id, src_id].get() is not None:
+            raise Unbounded("Negative cycle detected.")
+        if not G.is_directed() and G._A[src_id, :].nvals > 0:
+            # For undirected graphs, any negative edge is a cycle
+            raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
@@ -265,7 +270,7 @@ def bellman_ford_path(G, source, target):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if not is_negative:
+        if not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
 
@@ -292,25 +297,17 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if mask.reduce(monoid.lor):
+            raise Unbounded("Negative cycle detected.")
+    if has_negative_diagonal:
+        # We removed diagonal entries above, so check if we visited one with a negative weight
+        diag = G.get_property("diag")
+        cur << select.valuelt(diag, 0)
+        if any_pair(d @ cur):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if not path:
         raise NoPath(f"node {target} not reachable from {source}")
-    if has_negative_diagonal and path:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
-            raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
     return path
 
 
-- 
2.43.0


From ded94095bdbb8515229273f3b8c0f80f9f1e5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 06/49] fix: reduce cached lower and upper triangles of a graph
 with self-edges

---
 graphblas_algorithms/classes/_caching.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..67de820 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,9 +123,9 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
-                    )[0].new(name=key)
+                    lower = cache["L-"].reduce_scalar(op_).new()
+                    upper = cache["U-"].reduce_scalar(op_).new()
+                    cache[key] = op_(lower | upper).new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
                 else:
-- 
2.43.0


From ff0706a9cfdc684c041da397aed9f27de58b8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 07/49] fix: directed clustering ignores self-edges

---
 graphblas_algorithms/algorithms/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..afebce6 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -101,6 +101,8 @@ def clustering(G, *, weighted=False, mask=None):
 def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     A, AT = G.get_properties("offdiag AT")
+    if G.get_property("has_self_edges"):
+        AT = A.T.new(name="offdiag_T")  # Ignore self-edges
     if weighted:
         maxval = G.get_property("max_element-")
         A = unary.cbrt(A / maxval)
-- 
2.43.0


From e51db9ecf31619a6f70c1e1786c5165f02912d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 08/49] fix: weighted clustering of a graph without edges

---
 graphblas_algorithms/algorithms/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index afebce6..5f6935c 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -29,7 +29,7 @@ def single_triangle(G, node, *, weighted=False):
     if G.get_property("has_self_edges"):
         del r[index]  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         L = unary.cbrt(L / maxval)
         r = unary.cbrt(r / maxval)
         semiring = plus_times
@@ -46,7 +46,7 @@ def triangles(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     L, U = G.get_properties("L- U-")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         L = unary.cbrt(L / maxval)
         U = unary.cbrt(U / maxval)
         semiring = plus_times
@@ -104,7 +104,7 @@ def clustering_directed(G, *, weighted=False, mask=None):
     if G.get_property("has_self_edges"):
         AT = A.T.new(name="offdiag_T")  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
         AT = unary.cbrt(AT / maxval)
         semiring = plus_times
@@ -153,7 +153,7 @@ def single_clustering_directed(G, node, *, weighted=False):
     A = G.get_property("offdiag")
     index = G._key_to_id[node]
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)
         A = unary.cbrt(A / maxval)
         semiring = plus_times
     else:
-- 
2.43.0


From 59b64c9e98620df72e5e1220f746f309af093e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 09/49] fix: square_clustering must not depend on stored values

---
 graphblas_algorithms/algorithms/cluster.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 5f6935c..c09dea1 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -219,7 +219,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).get(0) * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -235,7 +235,7 @@ def square_clustering(G, node_ids=None):
     #   tri = first(P2 & A).reduce_rowwise()
     #   squares = (P2 * (P2 - 1)).reduce_rowwise() / 2
     #   uw_count = degrees * (degrees - 1)
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
     #   square_clustering = squares / (uw_degrees - uw_count - tri - squares)
     #
     A, degrees = G.get_properties("A degrees+")  # TODO" how to handle self-edges?
@@ -273,9 +273,9 @@ def square_clustering(G, node_ids=None):
     neg_denom(binary.plus) << degrees * denom
 
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
-    #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
-    # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    #   uw_degrees = plus_second(A @ degrees) * (degrees - 1)
+    # denom(binary.times) << plus_second(A @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From a1e83825ac2bd8d22475ee7d8991113c27036f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 10/49] fix: chunks of one element must be sequences

---
 graphblas_algorithms/nxapi/_utils.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..393fb33 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -96,9 +96,6 @@ def partition(chunksize, L, *, evenly=True):
     if chunksize <= 0 or chunksize >= N:
         yield L
         return
-    if chunksize == 1:
-        yield from L
-        return
     if evenly:
         k = ceil(len(L) / chunksize)
         if k * chunksize != N:
-- 
2.43.0


From d82b6d5ba046464b78dc182e8f4cb9994c094d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 11/49] fix: square_clustering of some nodes includes zeros,
 and works without edges when chunked

---
 graphblas_algorithms/nxapi/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..e4730c8 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -89,6 +89,8 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
             result = res
         else:
             result << monoid.any(result | res)
+    if result is None:  # nothing to split
+        result = algorithms.square_clustering(G, node_ids)
     return result
 
 
@@ -118,7 +120,7 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    return G.vector_to_nodemap(result, mask=G.list_to_mask(nodes), fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From 7f68150a6abbdfb714100922a8c9ea2c4fc2c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 12/49] fix: compose keeps every edge of partially overlapping
 graphs

---
 graphblas_algorithms/algorithms/operators/binary.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..fc27982 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -134,16 +134,13 @@ def compose(G, H, *, name="compose"):
             name=name,
         )
         C[: A.nrows, : A.ncols] = A
-        ids1 = G.list_to_ids(keys)
-        ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
-        newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
-        ids = H.list_to_ids(newkeys)
-        C[A.nrows :, A.ncols :] = B[ids, ids]
         # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
+        newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
+        key_to_id = dict(zip(newkeys, range(A.nrows, C.nrows), strict=True))
         key_to_id.update(G._key_to_id)
+        # Edges of H take precedence; edges of G that are not in H are kept
+        ids = [key_to_id[key] for key in sorted(H._key_to_id, key=H._key_to_id.__getitem__)]
+        C(binary.second)[ids, ids] << B
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From f0bf953654902ae3532e336cba2ea38e890012e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 13/49] fix: to_undirected must give a symmetric matrix

---
 graphblas_algorithms/classes/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..b1896d4 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -609,6 +609,9 @@ class DiGraph(Graph):
             B = binary.any(A & A.T).new(name=name)
         else:
             B = binary.any(A | A.T).new(name=name)
+        # Edges in both directions may have different values; be sure the result is symmetric
+        B << select.triu(B)
+        B << binary.any(B | B.T)
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From 50c9e17bc8d5aa50e490fa843dea7d61faa15029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 14/49] fix: operators reject a directed together with an
 undirected graph

---
 graphblas_algorithms/algorithms/operators/binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index fc27982..b71632b 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -18,6 +18,8 @@ def union(G, H, rename=(), *, name="union"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if rename:
         prefix = rename[0]
         if prefix is not None:
@@ -48,6 +50,8 @@ def disjoint_union(G, H, *, name="disjoint_union"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     A = G._A
     B = H._A
     C = Matrix(dtypes.unify(A.dtype, B.dtype), A.nrows + B.nrows, A.ncols + B.ncols, name=name)
@@ -61,6 +65,8 @@ def intersection(G, H, *, name="intersection"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     keys = sorted(G._key_to_id.keys() & H._key_to_id.keys(), key=G._key_to_id.__getitem__)
     ids = G.list_to_ids(keys)
     A = G._A[ids, ids].new()
@@ -114,6 +120,8 @@ def compose(G, H, *, name="compose"):
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
         raise NotImplementedError("Not yet implemented for multigraphs")
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     A = G._A
     B = H._A
     if G._key_to_id.keys() == H._key_to_id.keys():
-- 
2.43.0


From a3581e8b5dc4316294e8ecc4257cf3de022274a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 15/49] fix: generalized_degree of one node is keyed by
 triangle counts, not by node labels

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index e4730c8..e163be4 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -130,7 +131,7 @@ def generalized_degree(G, nodes=None):
         return {}
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From 780f4d2bea69f828f5e3c2bdba5049191f44ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 16/49] fix: weighted volume of a directed graph is about
 outgoing edges

---
 graphblas_algorithms/algorithms/cuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..9c1740f 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -32,7 +32,7 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From bc6d91344e0c03ea8069c0132799f56286e65f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 17/49] fix: edge_boundary of a directed graph includes edges
 to nodes without outgoing edges

---
 graphblas_algorithms/algorithms/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..b3f964d 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -11,8 +11,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
-- 
2.43.0


From ee1159057b8d5a67f8c3fa3180c4db4049fbf893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 18/49] fix: edge_boundary(data=<attribute>) gives values, not
 dicts

---
 graphblas_algorithms/nxapi/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 662cfe4..a49d120 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -28,7 +28,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
             (id_to_key[row] for row in rows),
             (id_to_key[col] for col in cols),
             # Unsure about this; data argument may mean *all* edge attributes
-            ({weight: val} for val in vals),
+            ({weight: val} for val in vals) if data is True else vals,
             strict=True,
         )
     else:
-- 
2.43.0


From 7accfd7418b0b3b6d2c34d4b7b4dbacbd26c1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 19/49] fix: the cut ratios must use the requested edge weights

---
 graphblas_algorithms/algorithms/cuts.py | 24 ++++++++++++------------
 graphblas_algorithms/nxapi/cuts.py      |  8 ++++----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 9c1740f..b8a449e 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -38,22 +38,22 @@ def volume(G, S, *, weighted=False):
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -61,8 +61,8 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
 
 
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..643861c 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -35,7 +35,7 @@ def normalized_cut_size(G, S, T=None, weight=None):
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=weight is not None)
 
 
 def conductance(G, S, T=None, weight=None):
@@ -45,21 +45,21 @@ def conductance(G, S, T=None, weight=None):
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(G, S, T, is_weighted=weight is not None)
 
 
 def edge_expansion(G, S, T=None, weight=None):
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(G, S, T, is_weighted=weight is not None)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(G, S, T, is_weighted=weight is not None)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 5909dbc1c9f01a970fb0e949dac43c29b717d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 20/49] fix: cut_size and edge_expansion of directed graphs
 with default T, mixing_expansion counts edges

---
 graphblas_algorithms/algorithms/cuts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index b8a449e..d06da35 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -16,6 +16,8 @@ __all__ = [
 
 
 def cut_size(G, S, T=None, *, is_weighted=False):
+    if T is None and G.is_directed():
+        T = (~S.S).new()
     edges = edge_boundary(G, S, T, is_weighted=is_weighted)
     if is_weighted:
         rv = edges.reduce_scalar(monoid.plus).get(0)
@@ -63,7 +65,10 @@ def edge_expansion(G, S, T=None, *, is_weighted=False):
 
 def mixing_expansion(G, S, T=None, *, is_weighted=False):
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
-    return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
+    # Each edge counts twice; undirected edges (except self-edges) are already stored twice
+    if G.is_directed():
+        return num_cut_edges / (2 * G._A.nvals)
+    return num_cut_edges / (G._A.nvals + G.get_property("diag").nvals)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 1dc0ed87eef6371a0b6c3458c6c00a1039b7dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 21/49] fix: community edge counts of undirected graphs counted
 edges twice

---
 graphblas_algorithms/algorithms/community/quality.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/community/quality.py b/graphblas_algorithms/algorithms/community/quality.py
index d2b1d95..f4f49f1 100644
--- a/graphblas_algorithms/algorithms/community/quality.py
+++ b/graphblas_algorithms/algorithms/community/quality.py
@@ -1,3 +1,4 @@
+from graphblas import binary
 from graphblas.semiring import plus_pair
 
 __all__ = ["intra_community_edges", "inter_community_edges"]
@@ -9,6 +10,11 @@ def intra_community_edges(G, partition):
     for block in partition:
         # is A or A.T faster?
         count += plus_pair(A @ block).new(mask=block.S).reduce().get(0)
+    if not G.is_directed():
+        # Undirected edges (except self-edges) were counted twice
+        for block in partition:
+            count += binary.pair(G.get_property("diag") & block).nvals
+        count //= 2
     return count
 
 
@@ -18,6 +24,8 @@ def inter_community_edges(G, partition):
     for block in partition:
         # is A or A.T faster?
         count += plus_pair(A @ block).new(mask=~block.S).reduce().get(0)
+    if not G.is_directed():
+        count //= 2  # Undirected edges were counted twice
     return count
     # Alternative implementation if partition is complete set:
     # return G._A.nvals - intra_community_edges_core(G, partition)
-- 
2.43.0


From b8145a072d03b2c31ef3ea1eb59de49e9969da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 22/49] fix: normalized_laplacian_matrix of nodes with total
 weight 0

---
 graphblas_algorithms/linalg/laplacianmatrix.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 18ed65a..4a80602 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -1,4 +1,4 @@
-from graphblas import monoid, unary
+from graphblas import monoid, select, unary
 
 __all__ = [
     "laplacian_matrix",
@@ -35,11 +35,9 @@ def normalized_laplacian_matrix(
 ):
     d, A = _laplacian_helper(G, nodelist, is_weighted)
     d_invsqrt = unary.sqrt(d).new(name="d_invsqrt")
+    d_invsqrt << select.valuene(d_invsqrt, 0)  # Same as if `1 / sqrt(0)` were 0
     d_invsqrt << unary.minv(d_invsqrt)
 
-    # XXX: what if `d` is 0 and `d_invsqrt` is infinity? (not tested)
-    # d_invsqrt(unary.isinf(d_invsqrt)) << 0
-
     # Calculate: A_weighted = D_invsqrt @ A @ D_invsqrt
     A_weighted = d_invsqrt.outer(d_invsqrt).new(mask=A.S, name=name)
     A_weighted *= A
-- 
2.43.0


From 9f8482d94991084016c807cbab5b2354eb2ddb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 23/49] fix: graph matrices of boolean graphs

---
 graphblas_algorithms/linalg/bethehessianmatrix.py | 4 ++++
 graphblas_algorithms/linalg/laplacianmatrix.py    | 4 ++++
 graphblas_algorithms/linalg/modularitymatrix.py   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/graphblas_algorithms/linalg/bethehessianmatrix.py b/graphblas_algorithms/linalg/bethehessianmatrix.py
index edd000f..179f029 100644
--- a/graphblas_algorithms/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/linalg/bethehessianmatrix.py
@@ -5,6 +5,10 @@ __all__ = ["bethe_hessian_matrix"]
 
 def bethe_hessian_matrix(G, r=None, nodelist=None, *, name="bethe_hessian_matrix"):
     A = G._A
+    if A.dtype == bool:
+        # Booleans don't add up
+        A = A.dup(int)
+        G = type(G)(A, key_to_id=G._key_to_id)
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
diff --git a/graphblas_algorithms/linalg/laplacianmatrix.py b/graphblas_algorithms/linalg/laplacianmatrix.py
index 4a80602..7b0c37d 100644
--- a/graphblas_algorithms/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/linalg/laplacianmatrix.py
@@ -10,6 +10,10 @@ def _laplacian_helper(G, nodelist=None, is_weighted=False):
     if G.is_multigraph():
         is_weighted = True  # XXX
     A = G._A
+    if A.dtype == bool and (is_weighted or nodelist is not None):
+        # Booleans don't add up
+        A = A.dup(int)
+        G = type(G)(A, key_to_id=G._key_to_id)
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
diff --git a/graphblas_algorithms/linalg/modularitymatrix.py b/graphblas_algorithms/linalg/modularitymatrix.py
index 1efff65..c021edf 100644
--- a/graphblas_algorithms/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/linalg/modularitymatrix.py
@@ -18,6 +18,10 @@ def directed_modularity_matrix(
     G, nodelist=None, is_weighted=False, *, name="directed_modularity_matrix"
 ):
     A = G._A
+    if A.dtype == bool and (is_weighted or nodelist is not None):
+        # Booleans don't add up
+        A = A.dup(int)
+        G = type(G)(A, key_to_id=G._key_to_id)
     if nodelist is not None:
         ids = G.list_to_ids(nodelist)
         A = A[ids, ids].new()
-- 
2.43.0


From bf7c70b4b492dda27937eb44f281abfe0b9faeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 24/49] fix: DiGraph.reverse(copy=False) raised TypeError

---
 graphblas_algorithms/classes/digraph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index b1896d4..767ceb5 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -616,9 +616,8 @@ class DiGraph(Graph):
 
     def reverse(self, copy=True):
         # We could even reuse many of the cached values
-        A = self._A.T  # This probably mostly works, but does not yet support assignment
-        if copy:
-            A = A.new()
+        # A transposed view (`copy=False`) can't back a graph, so always make a new matrix
+        A = self._A.T.new()
         rv = type(self)(A, key_to_id=self._key_to_id)
         rv.graph.update(deepcopy(self.graph))
         return rv
-- 
2.43.0


From 93f0990842e886cff0fad1e4db6a4dc692ac2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 25/49] fix: floyd_warshall predecessors of undirected graphs
 were symmetrized

---
 .../algorithms/shortest_paths/dense.py              | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 394d1b4..afd4ea0 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -18,7 +18,8 @@ def floyd_warshall_predecessor_and_distance(
     # Typically, Floyd-Warshall algorithms sets the diagonal of D to 0 at the beginning.
     # This is unnecessary with sparse matrices, and we set the diagonal to 0 at the end.
     # We also don't iterate over index `i` if either row i or column i are empty.
-    if is_directed := G.is_directed():
+    # Predecessors are not symmetric, so computing them can't exploit undirected graphs.
+    if is_directed := G.is_directed() or compute_predecessors:
         A, row_degrees, column_degrees = G.get_properties("offdiag row_degrees- column_degrees-")
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
     else:
@@ -76,10 +77,7 @@ def floyd_warshall_predecessor_and_distance(
                 D(binary.min) << select.triu(Outer, 1)
         else:
             # Update Outer to only include off-diagonal values that will update D and P.
-            if is_directed:
-                Mask << indexunary.offdiag(Outer)
-            else:
-                Mask << indexunary.triu(Outer, 1)
+            Mask << indexunary.offdiag(Outer)
             Mask(binary.second) << binary.lt(Outer & D)
             Outer(Mask.V, replace) << Outer
 
@@ -88,9 +86,6 @@ def floyd_warshall_predecessor_and_distance(
 
             # Broadcast predecessors in P_row to updated values
             P_row << P[[i], :]
-            if not is_directed:
-                P_row(binary.any) << P.T[[i], :]
-                Col = P_row.T
             P(Outer.S) << any_second(Col @ P_row)
     del Outer, Mask, Col, Row, P_row
 
@@ -98,8 +93,6 @@ def floyd_warshall_predecessor_and_distance(
         # Symmetrize the results.
         # It may be nice to be able to return these as upper-triangular.
         D(binary.any) << D.T
-        if compute_predecessors:
-            P(binary.any) << P.T
 
     # Set diagonal values to 0 (this way seems fast).
     # The missing values are implied to be infinity, so we set diagonals explicitly to 0.
-- 
2.43.0


From 6b87cdcce05a9d7ea6adabb58f239d43eff23de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 26/49] fix: floyd_warshall_numpy of undirected graphs with a
 permuted nodelist

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index afd4ea0..757cf1c 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -29,7 +29,10 @@ def floyd_warshall_predecessor_and_distance(
             raise GraphBlasAlgorithmException(
                 "permutation must contain every node in G with no repeats."
             )
-        A = A[permutation, permutation].new()
+        if not is_directed:
+            A = select.triu(G.get_property("offdiag")[permutation, permutation].new(), 1).new()
+        else:
+            A = A[permutation, permutation].new()
         nonempty_nodes = nonempty_nodes[permutation].new(name="nonempty_nodes")
 
     if A.dtype == bool or not is_weighted:
-- 
2.43.0


From 69c685a39f0a3afeda0a3ef17d9976435c0aab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 27/49] fix: graphs without edges are regular

---
 graphblas_algorithms/algorithms/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..328376f 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -7,12 +7,12 @@ def is_regular(G):
     if not G.is_directed():
         degrees = G.get_property("degrees+")
         if degrees.nvals != degrees.size:
-            return False
+            return degrees.nvals == 0
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
     if row_degrees.nvals != row_degrees.size:
-        return False
+        return row_degrees.nvals == 0
     column_degrees = G.get_property("column_degrees+")
     if column_degrees.nvals != column_degrees.size:
         return False
@@ -26,5 +26,5 @@ def is_regular(G):
 def is_k_regular(G, k):
     degrees = G.get_property("degrees+")
     if degrees.nvals != degrees.size:
-        return False
+        return degrees.nvals == 0 and k == 0
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From 73b627311b516ec46225c3d8f7b226581b971bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 28/49] fix: s_metric of a directed graph was halved

---
 graphblas_algorithms/algorithms/smetric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/smetric.py b/graphblas_algorithms/algorithms/smetric.py
index e2e85bb..3336a14 100644
--- a/graphblas_algorithms/algorithms/smetric.py
+++ b/graphblas_algorithms/algorithms/smetric.py
@@ -8,7 +8,10 @@ def s_metric(G):
         degrees = G.get_property("total_degrees+")
     else:
         degrees = G.get_property("degrees+")
-    return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / 2
+    rv = (binary.first(degrees & G._A) @ degrees).reduce().get(0)
+    if G.is_directed():
+        return float(rv)
+    return rv / 2  # Each undirected edge is stored twice
     # Alternatives
     # return (degrees @ binary.second(G._A & degrees)).reduce().get(0) / 2
     # return degrees.outer(degrees).new(mask=G._A.S).reduce_scalar().get(0) / 2
-- 
2.43.0


From c4518db382684059f26fad882c27c59c8da90d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 29/49] fix: mutual_weight must not use stored values without a
 weight

---
 graphblas_algorithms/algorithms/structuralholes.py | 4 +++-
 graphblas_algorithms/nxapi/structuralholes.py      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/structuralholes.py b/graphblas_algorithms/algorithms/structuralholes.py
index 7c4bec8..5f89515 100644
--- a/graphblas_algorithms/algorithms/structuralholes.py
+++ b/graphblas_algorithms/algorithms/structuralholes.py
@@ -1,11 +1,13 @@
 __all__ = ["mutual_weight"]
 
 
-def mutual_weight(G, u, v):
+def mutual_weight(G, u, v, *, is_weighted=False):
     key_to_id = G._key_to_id
     if u not in key_to_id or v not in key_to_id:
         return 0
     u = key_to_id[u]
     v = key_to_id[v]
     A = G._A
+    if not is_weighted:
+        return int((u, v) in A) + int((v, u) in A)
     return A.get(u, v, 0) + A.get(v, u, 0)
diff --git a/graphblas_algorithms/nxapi/structuralholes.py b/graphblas_algorithms/nxapi/structuralholes.py
index 20227cd..e044549 100644
--- a/graphblas_algorithms/nxapi/structuralholes.py
+++ b/graphblas_algorithms/nxapi/structuralholes.py
@@ -6,4 +6,4 @@ __all__ = []
 
 def mutual_weight(G, u, v, weight=None):
     G = to_graph(G, weight=weight)
-    return algorithms.mutual_weight(G, u, v)
+    return algorithms.mutual_weight(G, u, v, is_weighted=weight is not None)
-- 
2.43.0


From 139fa86293650c625ea2a546342c86c6a9f7693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 30/49] fix: tournament_matrix of a boolean graph

---
 graphblas_algorithms/algorithms/tournament.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/tournament.py b/graphblas_algorithms/algorithms/tournament.py
index 32624ff..b1c8a42 100644
--- a/graphblas_algorithms/algorithms/tournament.py
+++ b/graphblas_algorithms/algorithms/tournament.py
@@ -24,4 +24,6 @@ def score_sequence(G):
 
 def tournament_matrix(G):
     A = G._A
+    if A.dtype == bool:
+        A = A.dup(int)  # Booleans can't be subtracted
     return (A - A.T).new(name="tournament_matrix")
-- 
2.43.0


From e25dd7c971cceb92bad7086f695b54cdb8cc6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 31/49] fix: pagerank of a graph without edges was all zeros

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..05cf993 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -22,7 +22,7 @@ def pagerank(
 ) -> Vector:
     A = G._A
     N = A.nrows
-    if A.nvals == 0:
+    if N == 0:
         return Vector(float, N, name=name)
 
     # Initial vector
-- 
2.43.0


From 89bd805b022a1c4a94d2fcdb0028a53c1ccee9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 32/49] fix: pagerank with an nstart that misses nodes

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 05cf993..642adb0 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -33,7 +33,8 @@ def pagerank(
         denom = nstart.reduce().get(0)
         if denom == 0:
             raise ZeroDivisionError("nstart sums to 0")
-        x << nstart / denom
+        x[:] = 0  # Nodes missing from nstart start with 0
+        x(binary.plus) << nstart / denom
 
     # Personalization vector or scalar
     if personalization is None:
-- 
2.43.0


From feabb072e72da7aa5415ba9c04fa02bb347db8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 33/49] fix: pagerank of a boolean graph

---
 .../algorithms/link_analysis/pagerank_alg.py                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 642adb0..80ed125 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -47,7 +47,11 @@ def pagerank(
 
     # Inverse of row_degrees
     # Fold alpha constant into S
-    if row_degrees is None:
+    if A.dtype == bool:
+        # Booleans don't add up
+        A = A.dup(float)
+        row_degrees = A.reduce_rowwise().new(name="row_degrees")
+    elif row_degrees is None:
         row_degrees = G.get_property("plus_rowwise+")  # XXX: What about self-edges?
     S = (alpha / row_degrees).new(name="S")
 
-- 
2.43.0


From 0bb3d98eacd9912f87b6700713f6f904f57c1204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 34/49] fix: google_matrix with a reordered nodelist mixed up
 the dangling nodes

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 80ed125..20fc0c3 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -135,7 +135,7 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
+    if ids is None:
         nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
     else:
         nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
-- 
2.43.0


From 912b5cd721356746aee5d79e51acf063711e3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 35/49] fix: katz_centrality did not give beta to nodes without
 in-edges

---
 graphblas_algorithms/algorithms/centrality/katz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..6f73ee1 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -1,4 +1,4 @@
-from graphblas import Scalar, Vector
+from graphblas import Vector
 from graphblas.core.utils import output_type
 from graphblas.semiring import plus_first, plus_times
 
@@ -25,7 +25,8 @@ def katz_centrality(
     else:
         x << nstart
     if output_type(beta) is not Vector:
-        b = Scalar.from_value(beta, dtype=float, name="beta")
+        b = Vector(float, N, name="beta")
+        b << beta  # every node gets beta, also those without in-edges
     else:
         b = beta
         if b.nvals != N:
-- 
2.43.0


From f15e786f23885de4b3bae4b8076fdc6ca5d11350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 36/49] fix: NodeSet membership, equality and isdisjoint

---
 graphblas_algorithms/classes/nodeset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index b79895e..0325a1f 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -34,8 +34,8 @@ class NodeSet(MutableSet):
 
     # Requirements for MutableSet
     def __contains__(self, x):
-        idx = self._key_to_id[x]
-        return idx in self.vector
+        idx = self._key_to_id.get(x)
+        return idx is not None and idx in self.vector
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
@@ -51,19 +51,19 @@ class NodeSet(MutableSet):
         self.vector[idx] = True
 
     def discard(self, value):
-        idx = self._key_to_id[value]
-        del self.vector[idx]
+        idx = self._key_to_id.get(value)
+        if idx is not None:
+            del self.vector[idx]
 
     # Override other MutableSet methods
     def __eq__(self, other):
-        if isinstance(other, NodeSet):
+        if isinstance(other, NodeSet) and self._key_to_id == other._key_to_id:
             a = self.vector
             b = other.vector
             return (
                 a.size == b.size
                 and (nvals := a.nvals) == b.nvals
                 and plus_pair(a @ b).get(0) == nvals
-                and self._key_to_id == other._key_to_id
             )
         return super().__eq__(other)
 
@@ -75,8 +75,8 @@ class NodeSet(MutableSet):
     def clear(self):
         self.vector.clear()
 
-    def isdisjoin(self, other):
-        if isinstance(other, NodeSet):
+    def isdisjoint(self, other):
+        if isinstance(other, NodeSet) and self._key_to_id == other._key_to_id:
             return not any_pair[bool](self.vector @ other.vector)
         return super().isdisjoint(other)
 
-- 
2.43.0


From 860d113a34193daa905def79a79fcacb83f40fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 37/49] fix: dict_to_vector of an empty dict raised ValueError

---
 graphblas_algorithms/classes/_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..1128e9c 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -61,7 +61,11 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
     if size is None:
         size = len(self)
     key_to_id = self._key_to_id
-    indices, values = zip(*((key_to_id[key], val) for key, val in d.items()), strict=True)
+    indices = []
+    values = []
+    for key, val in d.items():
+        indices.append(key_to_id[key])
+        values.append(val)
     return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
 
 
-- 
2.43.0


From 3f28d8bc1b1e1f5471dde9dfc027f96dfdb33c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 38/49] fix: NodeMap, VectorMap, VectorNodeMap and NodeNodeMap
 follow the mapping laws

---
 graphblas_algorithms/classes/nodemap.py | 133 ++++++++++++++----------
 1 file changed, 79 insertions(+), 54 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..affe18d 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -1,4 +1,5 @@
 from collections.abc import MutableMapping
+from numbers import Integral
 
 from graphblas import Vector, monoid
 
@@ -34,10 +35,18 @@ class NodeMap(MutableMapping):
     vector_to_set = _utils.vector_to_set
     # _cacheit = _utils._cacheit
 
+    def _store_fill_value(self):
+        """Store the fill value explicitly so that items can be removed"""
+        if self._fill_value is not None:
+            self.vector(~self.vector.S) << self._fill_value
+            self._fill_value = None
+
     # Requirements for MutableMapping
     def __delitem__(self, key):
-        idx = self._key_to_id[key]
-        del self.vector[idx]
+        if key not in self:
+            raise KeyError(key)
+        self._store_fill_value()
+        del self.vector[self._key_to_id[key]]
 
     def __getitem__(self, key):
         idx = self._key_to_id[key]
@@ -70,17 +79,21 @@ class NodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return self._fill_value is not None or idx in self.vector
+        idx = self._key_to_id.get(key)
+        return idx is not None and (self._fill_value is not None or idx in self.vector)
 
     def __eq__(self, other):
-        if isinstance(other, NodeMap):
-            return (
-                self._values_are_keys == other._values_are_keys
-                and self._fill_value == other._fill_value
-                and self.vector.isequal(other.vector)
-                and self._key_to_id == other._key_to_id
-            )
+        if (
+            isinstance(other, NodeMap)
+            and self._values_are_keys == other._values_are_keys
+            and self._fill_value == other._fill_value
+            and self._key_to_id == other._key_to_id
+        ):
+            if self.vector.isequal(other.vector):
+                return True
+            if self._fill_value is None:
+                return False
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -88,7 +101,9 @@ class NodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        idx = self._key_to_id.get(key)
+        if idx is None:
+            return default
         rv = self.vector.get(idx)
         if rv is None:
             if self._fill_value is not None:
@@ -103,6 +118,7 @@ class NodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._store_fill_value()
         v = self.vector
         try:
             idx, value = next(v.ss.iteritems())
@@ -122,7 +138,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
@@ -135,9 +151,13 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         return self.vector.get(key)
 
     def __iter__(self):
@@ -152,24 +172,20 @@ class VectorMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        return key in self.vector
+        return isinstance(key, Integral) and 0 <= key < self.vector.size and key in self.vector
 
     def __eq__(self, other):
         if isinstance(other, VectorMap):
             return self.vector.isequal(other.vector)
         if isinstance(other, Vector):
             return self.vector.isequal(other)
-        if isinstance(other, NodeMap):
-            return self.vector.isequal(other.vector) and other._key_to_id == {
-                i: i for i in range(self.vector.size)
-            }
         return super().__eq__(other)
 
     def clear(self):
         self.vector.clear()
 
     def get(self, key, default=None):
-        return self.vector.get(key, default)
+        return self.vector.get(key) if key in self else default
 
     # items
     # keys
@@ -185,9 +201,10 @@ class VectorMap(MutableMapping):
         return idx, value
 
     def setdefault(self, key, default=None):
-        if (value := self.vector.get(key)) is not None:
-            return value
-        self.vector[key] = default
+        if key in self:
+            return self.vector.get(key)
+        if default is not None:
+            self.vector[key] = default
         return default
 
     # update
@@ -198,7 +215,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -230,6 +247,8 @@ class VectorNodeMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
         idx = self._key_to_id[key]
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -270,12 +289,12 @@ class VectorNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return idx in self._get_rows()
+        idx = self._key_to_id.get(key)
+        return idx is not None and idx in self._get_rows()
 
     def __eq__(self, other):
-        if isinstance(other, VectorNodeMap):
-            return self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id
+        if isinstance(other, VectorNodeMap) and self._key_to_id == other._key_to_id:
+            return self.matrix.isequal(other.matrix)
         return super().__eq__(other)
 
     def clear(self):
@@ -283,10 +302,7 @@ class VectorNodeMap(MutableMapping):
         self._rows = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
-        if self._get_rows().get(idx) is None:
-            return default
-        return VectorMap(self.matrix[idx, :].new())
+        return self[key] if key in self else default
 
     # items
     # keys
@@ -312,7 +328,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -326,6 +342,13 @@ class NodeNodeMap(MutableMapping):
             self._rows(self._rows.S) << 1  # Make iso-valued
         return self._rows
 
+    def _store_fill_value(self):
+        """Store the fill value explicitly so that rows can be removed"""
+        if self._fill_value is not None:
+            self.matrix(~self.matrix.S) << self._fill_value
+            self._fill_value = None
+            self._rows = None
+
     id_to_key = property(_utils.id_to_key)
     # get_property = _utils.get_property
     # get_properties = _utils.get_properties
@@ -346,6 +369,9 @@ class NodeNodeMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self:
+            raise KeyError(key)
+        self._store_fill_value()
         idx = self._key_to_id[key]
         del self.matrix[idx, :]
         if self._rows is not None:
@@ -377,11 +403,12 @@ class NodeNodeMap(MutableMapping):
 
     def __setitem__(self, key, val):
         idx = self._key_to_id[key]
-        if isinstance(val, NodeMap):
-            # TODO: check val._key_to_id?
-            val = val.vector
-        elif isinstance(val, dict):
-            val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
+        if isinstance(val, (NodeMap, dict)):
+            # Keys of `val` are nodes, and `val` may use other ids or have a fill value
+            val = dict(val.items())
+            if self._values_are_keys:
+                val = {k: self._key_to_id[v] for k, v in val.items()}
+            val = self.dict_to_vector(val, size=self.matrix.ncols, dtype=self.matrix.dtype)
         else:
             raise TypeError
         if val.nvals == 0:
@@ -395,17 +422,21 @@ class NodeNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
-        return self._fill_value is not None or idx in self._get_rows()
+        idx = self._key_to_id.get(key)
+        return idx is not None and (self._fill_value is not None or idx in self._get_rows())
 
     def __eq__(self, other):
-        if isinstance(other, NodeNodeMap):
-            return (
-                self._fill_value == other._fill_value
-                and self._values_are_keys == other._values_are_keys
-                and self.matrix.isequal(other.matrix)
-                and self._key_to_id == other._key_to_id
-            )
+        if (
+            isinstance(other, NodeNodeMap)
+            and self._fill_value == other._fill_value
+            and self._values_are_keys == other._values_are_keys
+            and self._key_to_id == other._key_to_id
+        ):
+            if self.matrix.isequal(other.matrix):
+                return True
+            if self._fill_value is None:
+                return False
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -414,20 +445,14 @@ class NodeNodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
-        if self._fill_value is None and self._get_rows().get(idx) is None:
-            return default
-        self.vector_to_nodemap(
-            self.matrix[idx, :].new(),
-            fill_value=self._fill_value,
-            values_are_keys=self._values_are_keys,
-        )
+        return self[key] if key in self else default
 
     # items
     # keys
     # pop
 
     def popitem(self):
+        self._store_fill_value()
         rows = self._get_rows()
         try:
             idx = next(rows.ss.iterkeys())
-- 
2.43.0


From 3cb86547b65bbb540c22404a1122b3049b02c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 39/49] fix: has_negative_diagonal guessed when the smallest
 off-diagonal value was not cached

---
 graphblas_algorithms/classes/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 31e9b11..f0ee338 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -141,9 +141,12 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
-            or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and "min_element-" in cache
+            and cache["min_element-"].get(0) >= 0
+            or "min_element+" in cache
+            and "min_element-" in cache
+            and cache["min_element+"].get(0) < 0
+            and cache["min_element+"].get(0) < cache["min_element-"].get(0)
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From 88915ba0a61e9b4b05b3de69a79d4329a1953fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:55 +0000
Subject: [PATCH 40/49] fix: has_self_edges of a DiGraph was always False after
 total_degrees+

---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 767ceb5..ccd330e 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From a0fef6492f35a73d30140712e2597d9a676cd6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 41/49] fix: average_clustering reused the unweighted answer
 for the weighted one and vice versa

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index e163be4..71d7140 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -70,7 +70,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(weighted={weighted}, count_zeros={count_zeros})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From df82ad8cffd5effe992a10a9e12ac914a0f8d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 42/49] fix: fast_could_be_isomorphic rejected isomorphic
 directed graphs

---
 graphblas_algorithms/algorithms/isomorphism/isomorph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/isomorphism/isomorph.py b/graphblas_algorithms/algorithms/isomorphism/isomorph.py
index 12e5af4..deaa2c4 100644
--- a/graphblas_algorithms/algorithms/isomorphism/isomorph.py
+++ b/graphblas_algorithms/algorithms/isomorphism/isomorph.py
@@ -16,8 +16,9 @@ def fast_could_be_isomorphic(G1, G2):
     d2 = G2.get_property("total_degrees+" if G2.is_directed() else "degrees+")
     if d1.nvals != d2.nvals:
         return False
-    t1 = triangles(G1)
-    t2 = triangles(G2)
+    # Triangles are those of the underlying undirected graph
+    t1 = triangles(G1.to_undirected() if G1.is_directed() else G1)
+    t2 = triangles(G2.to_undirected() if G2.is_directed() else G2)
     if t1.nvals != t2.nvals:
         return False
     # Make ds and ts the same shape as numpy arrays so we can sort them lexicographically.
-- 
2.43.0


From 3d54c2d24bb4ca4634ba063cab4394b16319551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 43/49] fix: Bellman-Ford with a cutoff raised
 ZeroDivisionError if all edges have length 0

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 574ebc4..28cfb8f 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -27,7 +27,8 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         is_negative, iso_value = G.get_properties("has_negative_edges+ iso_value")
         if not is_negative:
             if cutoff is not None:
-                cutoff = int(cutoff // iso_value.get())
+                # Every node we can reach is within the cutoff if edges have length 0
+                cutoff = int(cutoff // iso_value.get()) if iso_value.get() else None
             d = _bfs_level(G, source, target, cutoff=cutoff, dtype=iso_value.dtype)
             if dst_id is not None:
                 d = d.get(dst_id)
-- 
2.43.0


From bb405914122da723d4b0864922c24fd44897d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 44/49] fix: matrix_to_dicts of iso-valued, empty and
 transposed matrices

---
 graphblas_algorithms/classes/_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 1128e9c..a5ffdaa 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -192,17 +192,18 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         d = A.T.ss.export("hypercsc")
         rows = d["cols"].tolist()
         col_indices = d["row_indices"].tolist()
-        use_row_index, use_column_index = use_column_index, use_row_index
     else:
         d = A.ss.export("hypercsr")
         rows = d["rows"].tolist()
         col_indices = d["col_indices"].tolist()
-    indptr = d["indptr"]
+    indptr = d["indptr"].tolist()
     values = d["values"].tolist()
+    if d.get("is_iso"):
+        values *= len(col_indices)
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-    it = zip(rows, np.lib.stride_tricks.sliding_window_view(indptr, 2).tolist(), strict=True)
+    it = zip(rows, zip(indptr[:-1], indptr[1:], strict=True), strict=True)
     if use_row_index and use_column_index:
         return {
             row: dict(zip(col_indices[start:stop], values[start:stop], strict=True))
-- 
2.43.0


From de29d2b66da52845fd911f3f3b5a99686d969a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:19 +0000
Subject: [PATCH 45/49] fix: floyd_warshall_numpy converted for NetworkX said 0
 for unreachable nodes

---
 graphblas_algorithms/interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/interface.py b/graphblas_algorithms/interface.py
index c718371..acd3b88 100644
--- a/graphblas_algorithms/interface.py
+++ b/graphblas_algorithms/interface.py
@@ -254,9 +254,11 @@ class Dispatcher:
                 "tournament_matrix",
             }:
                 obj = io.to_scipy_sparse(obj)
+            elif name == "floyd_warshall_numpy":
+                # There is no path where there is no value
+                obj = obj.to_dense(fill_value=float("inf"), dtype=float)
             elif name in {
                 "directed_modularity_matrix",
-                "floyd_warshall_numpy",
                 "google_matrix",
                 "modularity_matrix",
             }:
-- 
2.43.0


From 71b2aaf4e9f747b59ae0f6ff3587da21822b8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 46/49] fix: all-pairs path lengths of a graph without nodes
 raised ZeroDivisionError

---
 graphblas_algorithms/nxapi/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 393fb33..373f0f2 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -80,7 +80,7 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
             )
         number *= scale
         if chunkstring[-1] == "b":
-            number = max(1, number / itemsize)
+            number = max(1, number / max(1, itemsize))  # items of an empty graph have no size
         rv = int(round(number))
     if rv <= 0 or N is not None and rv >= N:
         return None
-- 
2.43.0


From b0ee702d2a94bbdce0267705284ced317a3a01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 47/49] fix: google_matrix ignored dangling weights of nodes
 dangling only within nodelist

---
 graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 22e977e..2b87143 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -50,7 +50,10 @@ def google_matrix(
 ):
     G = to_graph(G, weight=weight, dtype=float)
     p = G.dict_to_vector(personalization, dtype=float, name="personalization")
-    if dangling is not None and G.get_property("row_degrees+").nvals < len(G):
+    # Nodes may be dangling only among the nodes of nodelist
+    if dangling is not None and (
+        nodelist is not None or G.get_property("row_degrees+").nvals < len(G)
+    ):
         dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
     else:
         dangling_weights = None
-- 
2.43.0


From 6d8ffa10ef8373ec9955d655b4a89239dd1d9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:26 +0000
Subject: [PATCH 48/49] fix: result containers made vectors as long as their
 own number of items

dict_to_vector, list_to_vector, list_to_mask and set_to_vector of NodeSet, NodeMap and the
nested maps took len(self) for the number of nodes, which is the number of items they hold.
---
 graphblas_algorithms/classes/_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index a5ffdaa..9a190b4 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -58,9 +58,9 @@ def get_properties(self, names, *, mask=None):
 def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
     if d is None:
         return None
-    if size is None:
-        size = len(self)
     key_to_id = self._key_to_id
+    if size is None:
+        size = len(key_to_id)
     indices = []
     values = []
     for key, val in d.items():
@@ -72,9 +72,9 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
 def list_to_vector(self, nodes, dtype=None, *, values=True, size=None, name=None):
     if nodes is None:
         return None
-    if size is None:
-        size = len(self)
     key_to_id = self._key_to_id
+    if size is None:
+        size = len(key_to_id)
     index = [key_to_id[key] for key in nodes]
     return Vector.from_coo(index, values, size=size, dtype=dtype, name=name)
 
@@ -102,9 +102,9 @@ def list_to_keys(self, indices):
 def set_to_vector(self, nodes, dtype=bool, *, ignore_extra=False, size=None, name=None):
     if nodes is None:
         return None
-    if size is None:
-        size = len(self)
     key_to_id = self._key_to_id
+    if size is None:
+        size = len(key_to_id)
     if ignore_extra:
         if not isinstance(nodes, set):
             nodes = set(nodes)
-- 
2.43.0


From 1e8f3a9986887e95b956042204a74fe7212989f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:42 +0000
Subject: [PATCH 49/49] fix: expanded path lengths for a reordering of all
 nodes had their rows in the wrong order

With expand_output=True the rows are those of the graph, but the rows for nodes=<all nodes in
another order> were left in the order of nodes.
---
 graphblas_algorithms/algorithms/shortest_paths/unweighted.py | 2 +-
 graphblas_algorithms/algorithms/shortest_paths/weighted.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
index ec87b65..e0e7de7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/unweighted.py
@@ -21,7 +21,7 @@ def single_target_shortest_path_length(G, target, cutoff=None):
 
 def all_pairs_shortest_path_length(G, cutoff=None, *, nodes=None, expand_output=False):
     D = _bfs_levels(G, nodes, cutoff=cutoff)
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         ids = G.list_to_ids(nodes)
         rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
         rv[ids, :] = D
diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 28cfb8f..78be24e 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -134,7 +134,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
             D = _bfs_levels(G, nodes, dtype=iso_value.dtype)
             if iso_value != 1:
                 D *= iso_value
-            if nodes is not None and expand_output and D.ncols != D.nrows:
+            if nodes is not None and expand_output:
                 ids = G.list_to_ids(nodes)
                 rv = Matrix(D.dtype, D.ncols, D.ncols, name=D.name)
                 rv[ids, :] = D
@@ -192,7 +192,7 @@ def bellman_ford_path_lengths(G, nodes=None, *, expand_output=False):
         cur = select.valuelt(diag, 0)
         if any_pair(D @ cur).nvals > 0:
             raise Unbounded("Negative cycle detected.")
-    if nodes is not None and expand_output and D.ncols != D.nrows:
+    if nodes is not None and expand_output:
         rv = Matrix(D.dtype, n, n, name=D.name)
         rv[ids, :] = D
         return rv
-- 
2.43.0

