From a37c8d83c2e5db8a131f4daebf51165cd62c63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 1/6] fix: insert into the underlying list in
 LocalMinimumList.insert

It called itself without end, so insert, append and extend
died with RecursionError.
---
 wagyu/local_minimum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/local_minimum.py b/wagyu/local_minimum.py
index e1bcff5..6d0dedf 100644
--- a/wagyu/local_minimum.py
+++ b/wagyu/local_minimum.py
@@ -168,7 +168,7 @@ class LocalMinimumList(abc.MutableSequence):
         return True
 
     def insert(self, index: int, value: LocalMinimum) -> None:
-        self.insert(index, value)
+        self.values.insert(index, value)
 
 
 def to_edges_starting_on_local_maximum(edges: List[Edge]) -> List[Edge]:
-- 
2.43.0


From dbbfd18f011a8647c5e413dcc8aa557eb87b575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 2/6] fix: do not write through to edges' ends in Wagyu.bounds

The corners were the very points of the first edges, which are shared
with the rings passed by the user, so reading the bounds corrupted both.
---
 wagyu/wagyu.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f1e0622..f120dca 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -38,8 +38,10 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    minimum = left_bound.edges[0].top
-                    maximum = left_bound.edges[-1].bottom
+                    top = left_bound.edges[0].top
+                    bottom = left_bound.edges[-1].bottom
+                    minimum = Point(top.x, top.y)
+                    maximum = Point(bottom.x, bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
@@ -52,8 +54,10 @@ class Wagyu:
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    minimum = right_bound.edges[0].top
-                    maximum = right_bound.edges[-1].bottom
+                    top = right_bound.edges[0].top
+                    bottom = right_bound.edges[-1].bottom
+                    minimum = Point(top.x, top.y)
+                    maximum = Point(bottom.x, bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-- 
2.43.0


From 5bc2b48df93c2ccd842ba6807d85be3e1f38a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 3/6] fix: take vertical extremes from the proper ends of
 bounds in Wagyu.bounds

Edges of a bound go from its bottom to its top, so the topmost point
is the top of the last edge and the bottommost is the bottom of the first
one; the box was wrong (even inverted) for bounds with several edges.
---
 wagyu/wagyu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wagyu/wagyu.py b/wagyu/wagyu.py
index f120dca..5e0a207 100644
--- a/wagyu/wagyu.py
+++ b/wagyu/wagyu.py
@@ -38,32 +38,32 @@ class Wagyu:
             left_bound = local_minimum.left_bound
             if left_bound.edges:
                 if not first_set:
-                    top = left_bound.edges[0].top
-                    bottom = left_bound.edges[-1].bottom
+                    top = left_bound.edges[-1].top
+                    bottom = left_bound.edges[0].bottom
                     minimum = Point(top.x, top.y)
                     maximum = Point(bottom.x, bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, left_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, left_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, left_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, left_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, left_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, left_bound.edges[0].bottom.y)
                 for edge in left_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
             right_bound = local_minimum.right_bound
             if right_bound.edges:
                 if not first_set:
-                    top = right_bound.edges[0].top
-                    bottom = right_bound.edges[-1].bottom
+                    top = right_bound.edges[-1].top
+                    bottom = right_bound.edges[0].bottom
                     minimum = Point(top.x, top.y)
                     maximum = Point(bottom.x, bottom.y)
                     first_set = True
                 else:
                     minimum.x = min(minimum.x, right_bound.edges[-1].top.x)
-                    minimum.y = min(minimum.y, right_bound.edges[0].top.y)
+                    minimum.y = min(minimum.y, right_bound.edges[-1].top.y)
                     maximum.x = max(maximum.x, right_bound.edges[-1].top.x)
-                    maximum.y = max(maximum.y, right_bound.edges[-1].bottom.y)
+                    maximum.y = max(maximum.y, right_bound.edges[0].bottom.y)
                 for edge in right_bound.edges:
                     minimum.x = min(minimum.x, edge.bottom.x)
                     maximum.x = max(maximum.x, edge.bottom.x)
-- 
2.43.0


From 9b0a85af46b7b2c76e405ced19e601507597e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 4/6] fix: treat only non-adjacent nodes as duplicates in
 PointNode.bottom_node

As in the original: a repeated bottom vertex matters unless it is
a neighbour of the current one.
---
 wagyu/point_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 4d9ca63..857cf38 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -75,7 +75,8 @@ class PointNode:
                     dups = None
                     node = cursor
                 else:
-                    if cursor.next is not node and cursor.prev is node:
+                    if (cursor.next is not node
+                            and cursor.prev is not node):
                         dups = cursor
             cursor = cursor.next
         if dups is not None:
-- 
2.43.0


From 28efdf9d6aadd44c7b05e43eb4e25c4febe6cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 5/6] fix: stop second search of collinear edges at ends of the
 first one

Flag was compared with None, so the guard never worked.
---
 wagyu/point_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/point_node.py b/wagyu/point_node.py
index 857cf38..c87726b 100644
--- a/wagyu/point_node.py
+++ b/wagyu/point_node.py
@@ -310,7 +310,7 @@ def find_start_and_end_of_collinear_edges(pt_a: PointNode,
         if not first and (back is pt_b or forward is pt_a):
             break
         if (back is forward
-                or first is None and (back is end_b or forward is start_a)):
+                or not first and (back is end_b or forward is start_a)):
             back = back.prev
             forward = forward.next
             break
-- 
2.43.0


From d690e2a97c402c96802411ae755950ff7cf67d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:29 +0000
Subject: [PATCH 6/6] fix: round independently of the caller's decimal context

---
 wagyu/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wagyu/utils.py b/wagyu/utils.py
index bef80df..33072c0 100644
--- a/wagyu/utils.py
+++ b/wagyu/utils.py
@@ -95,7 +95,7 @@ def round_half_up(number: Coordinate) -> int:
     """
     Equivalent of C++'s ``std::llround``.
     """
-    return int(Decimal(number).quantize(0, ROUND_HALF_UP))
+    return int(Decimal(number).to_integral_value(ROUND_HALF_UP))
 
 
 def is_odd(number: int) -> bool:
-- 
2.43.0

