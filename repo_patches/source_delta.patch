From 347b1c145be9416df64314de5c824eacae39047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 01/32] fix: copy vertices and edges in the Graph copy
 constructor

map() is lazy in Python 3, so Graph(g) was always empty.
---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 87a6e1b..c89e19d 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -24,10 +24,12 @@ class Graph(object):
         # copy input graph
         if graph:
             # copy vertices
-            map(self.add_vertex, graph.vertices())
+            for vertex in graph.vertices():
+                self.add_vertex(vertex)
 
             # set up edges between vertices
-            map(self.set, [(v, w, graph.get(v, w)) for v, w in graph.edges()])
+            for v, w in graph.edges():
+                self.set(v, w, graph.get(v, w))
 
     def add_vertex(self, vertex):
         """Add vertex to graph
-- 
2.43.0


From 8de178bced514b72ac84ad86e6f8ac9ea07f5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 02/32] fix: remove incident edges in Graph.remove_vertex

map() is lazy in Python 3, so the edges of a removed vertex stayed behind.
---
 solver/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index c89e19d..4170837 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -55,8 +55,10 @@ class Graph(object):
             raise Exception("Vertex not in graph")
 
         # remove edges going to and from vertex
-        map(lambda u: self.remove_edge(u, vertex), self.ingoing_vertices(vertex))
-        map(lambda w: self.remove_edge(vertex, w), self.outgoing_vertices(vertex))
+        for u in list(self.ingoing_vertices(vertex)):
+            self.remove_edge(u, vertex)
+        for w in list(self.outgoing_vertices(vertex)):
+            self.remove_edge(vertex, w)
 
         # remove vertex in dicts
         del self._forward[vertex]
-- 
2.43.0


From 7a810e403cd11dd81b67c84007f16d62f28316d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 03/32] fix: return lists from Graph vertex queries

The documented lists were live key views, which changed with the graph and
broke callers that remove what they iterate over.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 4170837..252b42d 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -213,7 +213,7 @@ class Graph(object):
     def vertices(self):
         """Get a list of vertices in this graph"""
 
-        return self._forward.keys()
+        return list(self._forward.keys())
 
     def edges(self):
         """Get a list of the edges in this graph"""
@@ -263,7 +263,7 @@ class Graph(object):
         """
 
         # look up forward graph
-        return self._forward[vertex].keys()
+        return list(self._forward[vertex].keys())
 
     def ingoing_vertices(self, vertex):
         """Get a list of vertices connected to the specified vertex via an \
@@ -273,7 +273,7 @@ class Graph(object):
         """
 
         # look up the reverse graph
-        return self._reverse[vertex].keys()
+        return list(self._reverse[vertex].keys())
 
     def adjacent_vertices(self, vertex):
         """Get a list of adjacent (ingoing or outgoing) vertices
-- 
2.43.0


From 35cbca5b9cca1069906f4c83452649a9490c1d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 04/32] fix: list outgoing edges as (source, target) pairs

---
 solver/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 252b42d..93a5af2 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -299,7 +299,7 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return [(v, vertex) for v in self.outgoing_vertices(vertex)]
+        return [(vertex, v) for v in self.outgoing_vertices(vertex)]
 
     def adjacent_edges(self, vertex):
         """Get a list of ingoing and outgoing edges
-- 
2.43.0


From 63809ea30592bf89db4a134d1028a1b7d0f66add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 05/32] fix: keep values and isolated vertices in Graph.reverse

---
 solver/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 93a5af2..2c9b42a 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -315,9 +315,13 @@ class Graph(object):
         # new empty graph
         g = Graph()
 
-        # add swapped edges
+        # add vertices, including those without edges
+        for vertex in self.vertices():
+            g.add_vertex(vertex)
+
+        # add swapped edges with their values
         for v1, v2 in self.edges():
-            g.add_edge(v2, v1)
+            g.add_edge(v2, v1, self.get(v1, v2))
 
         return g
 
-- 
2.43.0


From 555c5718d996178039271287abd80190038c8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 06/32] fix: call the connected method in connected_via_*

The bare name raised NameError.
---
 solver/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 2c9b42a..e371916 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -427,7 +427,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=False, outgoing=True, *args, **kwargs)
+        return self.connected(ingoing=False, outgoing=True, *args, **kwargs)
 
     def connected_via_ingoing(self, *args, **kwargs):
         """Gets vertices x connected from specified vertex by following only \
@@ -437,7 +437,7 @@ class Graph(object):
         """
 
         # return only outgoing connected edges
-        return connected(ingoing=True, outgoing=False, *args, **kwargs)
+        return self.connected(ingoing=True, outgoing=False, *args, **kwargs)
 
     def connected_subsets(self):
         """Gets a set of (undirectionally) connected subsets of vertices"""
-- 
2.43.0


From a37a743bdff32e9da1ccadc2c4bea842d3876cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 07/32] fix: make Graph.connected_subsets work

It removed nothing from the vertices to check, used an undefined name and
added an unhashable set to a set.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index e371916..02b6e76 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -456,13 +456,13 @@ class Graph(object):
             connected = set(self.connected(vertex))
 
             # remove vertices connected to this one from check list
-            map(to_check.remove, connected)
+            to_check -= connected
 
             # add this vertex to the list of connected vertices
-            connected.add(v)
+            connected.add(vertex)
 
             # add this subset to the set
-            subsets.add(connected)
+            subsets.add(frozenset(connected))
 
         return subsets
 
-- 
2.43.0


From 2080eb0a50335d028f6da49ec5e219d08440b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 08/32] fix: render graphs as text

unicode() does not exist in Python 3, and the doubled braces printed a
literal {0} instead of the contents.
---
 solver/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/graph.py b/solver/graph.py
index 02b6e76..19bd28a 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -470,8 +470,8 @@ class Graph(object):
         s = ""
 
         for i in self._forward:
-            v = ", ".join(["{0}: {1}".format(unicode(j), unicode(self.get(i, j))) for j in self._forward[i]])
+            v = ", ".join(["{0}: {1}".format(j, self.get(i, j)) for j in self._forward[i]])
 
-            s += "{0}: {{1}}".format(unicode(i), v)
+            s += "{0}: {{{1}}}".format(i, v)
 
-        return "{{0}}".format(s)
+        return "{{{0}}}".format(s)
-- 
2.43.0


From 7c1ec158b0f925ed75dd51382a48948979771a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 09/32] fix: make SetMethod and AssignMethod executable

Both read attributes that do not exist, and AssignMethod called its input map.
---
 solver/method.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index edaa099..8aaf425 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -132,7 +132,7 @@ class SetMethod(Method):
         """Execute method"""
 
         # return a dict with the output set to the value
-        return {self._outputs[0]: self._value}
+        return {self.outputs[0]: self._value}
 
     def __str__(self):
         """String representation of the method
@@ -161,11 +161,11 @@ class AssignMethod(Method):
         """Execute method"""
 
         # return empty dict of the only input is not in the map
-        if self._inputs[0] not in in_map:
+        if self.inputs[0] not in in_map:
             return {}
 
         # set the relevant output to the mapping and return
-        return {self._outputs[0]: in_map(self._inputs[0])}
+        return {self.outputs[0]: in_map[self.inputs[0]]}
 
     def __str__(self):
         # show the input's assigned value in the string representation
-- 
2.43.0


From 7ff6b829ab79493f6f422dd9aa764f94d5376934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 10/32] fix: render SetMethod and AssignMethod as text

---
 solver/method.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index 8aaf425..e24643e 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -141,7 +141,7 @@ class SetMethod(Method):
         """
 
         # show the output's set value in the string representation
-        return "{0}({1}={2})".format(self.name, self._outputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], self._value)
 
 class AssignMethod(Method):
     """Method representing the assignment of a value to a variable"""
@@ -169,7 +169,8 @@ class AssignMethod(Method):
 
     def __str__(self):
         # show the input's assigned value in the string representation
-        return "{0}({1}={2})".format(self.name, self._inputs[0], self._value)
+        return "{0}({1}={2})".format(self.name, self.outputs[0], \
+        self.inputs[0])
 
 class MultiVariable(object):
     """Represents multi-valued variables"""
-- 
2.43.0


From f4fea6dc8b73fd29981e1c5613415db4a3ca7f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 11/32] fix: propagate a change to every method that uses the
 variable

Executing one method cleared the change flags of all its inputs, although
other methods with the same input had not been executed yet, so they kept
stale outputs.
---
 solver/method.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/solver/method.py b/solver/method.py
index e24643e..cde2b47 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -486,11 +486,6 @@ by multiple methods".format(var))
                     self._changed[var] = 1
                     self._map[var] = None
 
-        # clear change flag on input variables
-        for var in method.inputs:
-            if var in self._changed:
-                del(self._changed[var])
-
     def __str__(self):
         variables = ", ".join([str(element) for element in self._map.keys()])
         methods = ", ".join([str(element) for element in self._methods.keys()])
-- 
2.43.0


From cef132fc703f3f5e542671757dbccee752c13f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 12/32] fix: do not forget methods added without propagation

add_method(met, prop=False) left no pending change behind, so a later
propagate() never executed the method.
---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index cde2b47..cc9738b 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -393,6 +393,9 @@ by multiple methods".format(var))
         if prop:
             # execute includes propagation
             self.execute(met)
+        else:
+            # leave the changed outputs pending for a later propagation
+            self._do_execute(met)
 
     def rem_method(self, met):
         """Removes a method"""
-- 
2.43.0


From cf6f90304a0c8cb2f1ff744e51fb062b63aacb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 13/32] fix: compare matrix dimensions by value

Identity of ints fails beyond the small-int cache, so products and inverses
of matrices with more than 256 rows were refused.
---
 solver/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index d0063ae..42e65b0 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -108,7 +108,7 @@ class Matrix(object):
         return dimensions
 
     def inverse(self):
-        if self.num_rows is not self.num_cols:
+        if self.num_rows != self.num_cols:
             raise Exception('Inverse only defined for square matrices')
 
         return self.solve(self.identity(self.num_rows))
@@ -141,7 +141,7 @@ class Matrix(object):
         :type other: :class:`.Matrix`
         """
 
-        if self.num_cols is not other.num_rows:
+        if self.num_cols != other.num_rows:
             raise Exception('Matrix dimensions mismatch')
 
         return Matrix([[sum(a * b for a, b in zip(row_a, col_b)) \
@@ -197,7 +197,7 @@ class Vector(Matrix):
                     raise Exception('Matrix must be a single column')
 
                 # check that the matrix has 2 elements
-                if x.num_rows is not 2:
+                if x.num_rows != 2:
                     raise Exception('Matrix must have two rows')
 
                 y = x.elements[1][0]
-- 
2.43.0


From b3186165fbf0798253be9b7a73b26d69f4654822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 14/32] fix: allow transposing vectors

The transpose of a column vector is not a Vector, so building one failed.
---
 solver/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 42e65b0..5393720 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -126,7 +126,7 @@ class Matrix(object):
 
             t_matrix.append(t_row)
 
-        return(self.__class__(t_matrix))
+        return Matrix(t_matrix)
 
     def round(self, precision=4):
         for row in range(self.num_rows):
-- 
2.43.0


From 84634a6df1c3c7c2f68ab6cf8ad53b64923857d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 15/32] fix: use the built-in abs in cl_int

math.abs does not exist, so every secant raised AttributeError.
---
 solver/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 5393720..3e4f360 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -485,8 +485,8 @@ def cl_int(p1, r, p2, v):
         sE = math.sqrt(E)
         x1 = p1.x + (D * v.y + Scalar.sign(v.y) * v.x * sE) / d2
         x2 = p1.x + (D * v.y - Scalar.sign(v.y) * v.x * sE) / d2
-        y1 = p1.y + (-D * v.x + math.abs(v.y) * sE) / d2
-        y2 = p1.y + (-D * v.x - math.abs(v.y) * sE) / d2
+        y1 = p1.y + (-D * v.x + abs(v.y) * sE) / d2
+        y2 = p1.y + (-D * v.x - abs(v.y) * sE) / d2
 
         return [Vector(x1, y1), Vector(x2, y2)]
     elif Scalar.tol_zero(E):
-- 
2.43.0


From 11ec8de7a92388af17a3f386420d6157bd053942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 16/32] fix: intersect nearly horizontal lines exactly in
 ll_int

A second line that is horizontal within tolerance was treated as exactly
horizontal, which gave points off that line and a division by zero when the
first line is horizontal.
---
 solver/geometry.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index 3e4f360..c57843b 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -543,17 +543,15 @@ def ll_int(p1, v1, p2, v2):
     logging.getLogger("geometry").debug("ll_int %s %s %s %s", p1, v1, p2, \
     v2)
 
-    if Scalar.tol_zero(v1.x * v2.y - v1.y * v2.x):
+    # cross product of the directions
+    f = v1.x * v2.y - v1.y * v2.x
+
+    if Scalar.tol_zero(f):
         # lines don't intersect
         return []
-    elif not Scalar.tol_zero(v2.y):
-        d = p2 - p1
-        r2 = -v2.x / v2.y
-        f = v1.x + v1.y * r2
-        t1 = (d.x + d.y * r2) / f
-    else:
-        d = p2-p1
-        t1 = d.y / v1.y
+
+    d = p2 - p1
+    t1 = (d.x * v2.y - d.y * v2.x) / f
 
     return [p1 + v1 * t1]
 
-- 
2.43.0


From b4fb1a47bdd8d6ec74c904ade24a302579b3cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 17/32] fix: check both rays in rr_int and accept parallel ones

The second ray was never checked, and parallel rays raised IndexError.
---
 solver/geometry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/solver/geometry.py b/solver/geometry.py
index c57843b..fefa0d4 100644
--- a/solver/geometry.py
+++ b/solver/geometry.py
@@ -604,12 +604,9 @@ def rr_int(p1, v1, p2, v2):
     # assume rays are lines and get intersection
     s = ll_int(p1, v1, p2, v2)
 
-    a1 = (s[0] - p1).dot(v1)
-    a2 = (s[0] - p2).dot(v2)
-
     # check len(s) > 0 and a1 >= 0 and a2 >= 0 within tolerance
     if len(s) > 0 and Scalar.tol_ge((s[0] - p1).dot(v1), 0) \
-    and Scalar.tol_ge((s[0] - p1).dot(v1), 0):
+    and Scalar.tol_ge((s[0] - p2).dot(v2), 0):
         return s
     else:
         # lines intersect behind rays
-- 
2.43.0


From f2d6e0ad64c8193b7c8a6772234db32cb0c572ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 18/32] fix: align configurations on shared points that do not
 overlap

The first two shared points were used even if they coincide while others are
apart, so congruent configurations compared unequal and merges were wrong,
depending on hash order.
---
 solver/geometric/configuration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index cf421b1..5b6be09 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -2,6 +2,7 @@
 coordinates"""
 
 import logging
+from itertools import combinations
 from ..geometry import Scalar, Vector, Matrix, distance_2p, make_hcs, \
 make_hcs_scaled, cs_transform_matrix
 
@@ -171,9 +172,13 @@ class Configuration(object):
             cs1 = make_hcs(p11, p11 + Vector(1.0, 0.0))
             cs2 = make_hcs(p21, p21 + Vector(1.0, 0.0))
         else:
-            # get the first two shared variables
-            v1 = list(shared)[0]
-            v2 = list(shared)[1]
+            # get two shared variables whose coordinates do not overlap in
+            # either configuration, if there are any
+            for v1, v2 in combinations(shared, 2):
+                if not Scalar.tol_zero(distance_2p(self.mapping[v1], \
+                self.mapping[v2])) and not Scalar.tol_zero(distance_2p( \
+                other.mapping[v1], other.mapping[v2])):
+                    break
 
             # FIXME: the following code is duplicated for this and the other
             # configuration - turn into a function (this is also used in merge_scale)
-- 
2.43.0


From 4ee619832b92a954405a17d7228deb540c35f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 19/32] fix: keep the underconstrained status in merged
 configurations

The flag was returned but never set, so it was lost in the next merge.
---
 solver/geometric/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/geometric/configuration.py b/solver/geometric/configuration.py
index 5b6be09..41437d6 100644
--- a/solver/geometric/configuration.py
+++ b/solver/geometric/configuration.py
@@ -126,6 +126,7 @@ class Configuration(object):
 
         # add the transformed version of other configuration to this one
         merged_configuration = self.add(other.transform(t))
+        merged_configuration.underconstrained = underconstrained
 
         return merged_configuration, underconstrained
 
-- 
2.43.0


From 212ca540f301f7bf507916153d87699f461a90f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 20/32] fix: let constraint graphs accept selection constraints

An attribute hid Constraint.variables(), so adding one raised TypeError.
---
 solver/geometric/constraint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 94c2b7d..770b7b7 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -83,14 +83,15 @@ class SelectionConstraint(Constraint, metaclass=abc.ABCMeta):
 
     def __init__(self, name, variables):
         self.name = str(name)
-        self.variables = list(variables)
+        self._variables = list(variables)
 
     @abc.abstractmethod
     def satisfied(self, mapping):
         raise NotImplementedError
 
     def __str__(self):
-        return "{0}({1})".format(self.name, ", ".join(self.variables))
+        return "{0}({1})".format(self.name, ", ".join( \
+        [str(variable) for variable in self._variables]))
 
 class FunctionConstraint(SelectionConstraint):
     """Selects solutions where function returns True when applied to specified \
@@ -119,11 +120,12 @@ class FunctionConstraint(SelectionConstraint):
         # return whether the result of the function with the variables as
         # arguments is True or not
         return self.function(*[mapping[variable] for variable in \
-        self.variables]) is True
+        self._variables]) is True
 
     def __str__(self):
-        return "{0}({1}, {2})".format(self.name, self.function.__name__, \
-        ", ".join(self.variables))
+        return "{0}({1}, {2})".format(self.name, getattr(self.function, \
+        "__name__", repr(self.function)), ", ".join( \
+        [str(variable) for variable in self._variables]))
 
 class NotClockwiseConstraint(FunctionConstraint):
     """Selects triplets that are not clockwise (i.e. counter clockwise or \
-- 
2.43.0


From a33287c3e73aaec48dfd6b8ae529b8d0daaba222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 21/32] fix: render PlusConstraint as text

The variables method itself was joined, which raised TypeError.
---
 solver/geometric/constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 770b7b7..85ae698 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -72,7 +72,8 @@ class PlusConstraint(Constraint):
         self._variables = [a, b, c]
 
     def __str__(self):
-        return "PlusConstraint({0})".format(", ".join(self.variables))
+        return "PlusConstraint({0})".format(", ".join( \
+        [str(variable) for variable in self._variables]))
 
     def satisfied(self, mapping):
         return mapping[self._variables[0]] + mapping[self._variables[1]] \
-- 
2.43.0


From 40e93f9c789b23df4b4bd435f705d6f9342ce127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 22/32] fix: call the cluster's own methods in
 common_constraints

The bare names raised NameError.
---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 2a21157..ab952a0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -101,7 +101,7 @@ class Cluster(object, metaclass=abc.ABCMeta):
         """
 
         # union between distances and angles in common
-        return common_distances(self, other) | common_angles(self, other)
+        return self.common_distances(other) | self.common_angles(other)
 
     @abc.abstractmethod
     def common_distances(self, other):
-- 
2.43.0


From 2aad1873fb44e525d6adb98aec61108db5274bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 23/32] fix: count hedgehog angles with the imported function

binomial is undefined, so Hedgehog.n_angles raised NameError.
---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index ab952a0..8586bd0 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -394,7 +394,7 @@ class Hedgehog(Cluster):
         return 0
 
     def n_angles(self):
-        return int(binomial(len(self.x_vars), 2))
+        return int(binom(len(self.x_vars), 2))
 
 class Balloon(Cluster):
     """Represents a set of points that is invariant to rotation, translation and
-- 
2.43.0


From 49c4c4394359b63bce7cc9b8c6c622e068c489cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 24/32] fix: do not count a hedgehog's centre as one of its
 outer points

Hedgehog(1, [1, 2]) was accepted although it has two unique points only.
---
 solver/geometric/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/cluster.py b/solver/geometric/cluster.py
index 8586bd0..13ce9aa 100644
--- a/solver/geometric/cluster.py
+++ b/solver/geometric/cluster.py
@@ -300,7 +300,7 @@ class Hedgehog(Cluster):
         *c_var* and *x_vars*
         """
 
-        x_vars = set(x_vars)
+        x_vars = set(x_vars) - set([c_var])
 
         # check there are enough other variables
         if len(x_vars) < 2:
-- 
2.43.0


From 8e891321ba0d98bb9f383d82f9efb972af6777c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 25/32] fix: keep the points of relations hashable

Points were wrapped in numpy arrays, so no relation could be hashed or
compared, and common constraints could not be collected in sets.
---
 solver/geometric/relation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 8d76fdb..0addb55 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -2,7 +2,6 @@
 between two points or the angle between three."""
 
 import abc
-import numpy as np
 
 class PointRelation(object, metaclass=abc.ABCMeta):
     """Represents a relation between a set of points"""
@@ -54,7 +53,7 @@ class Distance(PointRelation):
         """
 
         # call parent constructor
-        super(Distance, self).__init__([np.array(a), np.array(b)])
+        super(Distance, self).__init__([a, b])
 
     def __eq__(self, other):
         if isinstance(other, Distance):
@@ -83,7 +82,7 @@ class Angle(PointRelation):
         """
 
         # call parent constructor
-        super(Angle, self).__init__([np.array(a), np.array(b), np.array(c)])
+        super(Angle, self).__init__([a, b, c])
 
     def __eq__(self, other):
         if isinstance(other, Angle):
-- 
2.43.0


From 112fbc2b377064843605ba7ab5f95aeb1fc20c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 26/32] fix: render relations between points that are not
 strings as text

---
 solver/geometric/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index 0addb55..f8d6afa 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -19,7 +19,7 @@ class PointRelation(object, metaclass=abc.ABCMeta):
 
     def __str__(self):
         # comma separated points
-        points = ", ".join(self.points)
+        points = ", ".join([str(point) for point in self.points])
 
         return "{0}({1})".format(self.pretty_name, points)
 
-- 
2.43.0


From a7596e4ddbf02946ae15822bdaae42ca4c928e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 27/32] fix: remove bidirectional edges completely or not at
 all

With one direction missing, or for a loop, one edge was removed before the
exception.
---
 solver/graph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 19bd28a..82ebb35 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -121,8 +121,14 @@ class Graph(object):
         :param v2: second vertex
         """
 
+        if not self.has_bi_edge(v1, v2):
+            raise Exception("Edge not in graph")
+
         self.remove_edge(v1, v2)
-        self.remove_edge(v2, v1)
+
+        # a loop is its own reverse
+        if v1 != v2:
+            self.remove_edge(v2, v1)
 
     def has_vertex(self, vertex):
         """Check if this graph contains the specified vertex
-- 
2.43.0


From 00842aec1b4222a206d758e2172cf070d5b514f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 28/32] fix: list a loop once in Graph.adjacent_edges

---
 solver/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/graph.py b/solver/graph.py
index 82ebb35..136fdd1 100644
--- a/solver/graph.py
+++ b/solver/graph.py
@@ -313,7 +313,9 @@ class Graph(object):
         :param vertex: vertex to retrieve edges for
         """
 
-        return self.ingoing_edges(vertex) + self.outgoing_edges(vertex)
+        # return union of ingoing and outgoing edges (a loop is both)
+        return list(set(self.ingoing_edges(vertex))
+            | set(self.outgoing_edges(vertex)))
 
     def reverse(self):
         """Get a copy of this graph with the edges reversed"""
-- 
2.43.0


From 8e4b9a5470d23fd18c7f946d9809332a144c65a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 29/32] fix: let methods without variables be removed

---
 solver/method.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solver/method.py b/solver/method.py
index cc9738b..eda0db5 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -368,7 +368,9 @@ class MethodGraph(object):
 
         self._methods[met] = 1
 
-        # update graph
+        # update graph, also if the method has no variables
+        self._graph.add_vertex(met)
+
         for var in met.inputs:
             self.add_variable(var)
             self._graph.add_edge(var, met)
-- 
2.43.0


From 848f4a6fe0b1089afb6e570e155ffa5db88e999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 30/32] fix: let constraints without variables be removed

---
 solver/geometric/constraint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/geometric/constraint.py b/solver/geometric/constraint.py
index 85ae698..0fc8035 100644
--- a/solver/geometric/constraint.py
+++ b/solver/geometric/constraint.py
@@ -287,6 +287,9 @@ class ConstraintGraph(object):
         # create entry in constraints dict
         self._constraints[constraint] = None
 
+        # create a vertex in the graph, also if there are no variables
+        self._graph.add_vertex(constraint)
+
         # process the constraint's variables
         for var in constraint.variables():
             # add the variable to the graph
-- 
2.43.0


From 7fdc38c7fcc58983c2949e79a51261f4e4b78178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 31/32] fix: keep distances and angles hashable despite
 defining equality

---
 solver/geometric/relation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/geometric/relation.py b/solver/geometric/relation.py
index f8d6afa..c08f74a 100644
--- a/solver/geometric/relation.py
+++ b/solver/geometric/relation.py
@@ -41,6 +41,9 @@ class Distance(PointRelation):
 
     pretty_name = "Distance"
 
+    # defining __eq__ would otherwise make the relation unhashable
+    __hash__ = PointRelation.__hash__
+
     def __init__(self, a, b):
         """Creates a new known distance
 
@@ -68,6 +71,9 @@ class Angle(PointRelation):
 
     pretty_name = "Angle"
 
+    # defining __eq__ would otherwise make the relation unhashable
+    __hash__ = PointRelation.__hash__
+
     def __init__(self, a, b, c):
         """Creates a new known angle
 
-- 
2.43.0


From fd525ce112e13fd313c3c34699d204c2e9a6e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 32/32] fix: refuse setting variables that are not in the
 method graph

---
 solver/method.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solver/method.py b/solver/method.py
index eda0db5..6c2d3d7 100644
--- a/solver/method.py
+++ b/solver/method.py
@@ -351,6 +351,9 @@ class MethodGraph(object):
         :param prop: whether to propagate changes
         """
 
+        if varname not in self._map:
+            raise Exception("Variable not in graph")
+
         self._map[varname] = value
         self._changed[varname] = 1
 
-- 
2.43.0

