From b4de1d759931f1995fbc9ae87cfe5988dedab072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 01/44] fix: do not treat a bay as dormer when its bisectors
 never meet

A protrusion whose base is narrower than the difference of its side lengths
produced a skeleton node None and polygonize() raised TypeError.
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..bbb5a03 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -790,6 +790,8 @@ def processDormers(dormers,initialEvents):
             v_prev = ev_prev.vertex
             v_next = ev_next.vertex
             p = v_prev.bisector.intersect(v_next.bisector)
+            if p is None:   # the bisectors don't meet, so this can't be handled as dormer
+                continue
             d = dormer[1]/2.0
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
-- 
2.43.0


From 1c85690132248a41878ebd81c1c1d870b31bf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 02/44] fix: give vertices with a straight angle a valid
 bisector

The bisector of a vertex between two collinear edges was the zero vector (or
rounding noise), so even a rectangle with a vertex in the middle of a wall
got a broken roof.
---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index bbb5a03..68e65bc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -117,6 +117,10 @@ class _LAVertex:
         if forceConvex:
             self._is_reflex = False
         op_add_result = creator_vectors[0] + creator_vectors[1]
+        if op_add_result.magnitude < 0.0001:
+            # straight angle: the sum vanishes, the bisector is perpendicular to the edges
+            self._is_reflex = False
+            op_add_result = mathutils.Vector((-edge_next.norm.y, edge_next.norm.x))
         self._bisector = Ray2(self.point, op_add_result * (-1 if self._is_reflex else 1))
         # Vertex created
 
-- 
2.43.0


From dfeb0da951ba05d8fc206ef0c275f9a1922b6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 03/44] fix: search a new event for a vertex that survives its
 outdated edge event

When one vertex of a queued edge event had been consumed by another event,
the remaining vertex was left without any event. Two adjacent vertices that
both preferred such a lost neighbor never collapsed their common edge.
---
 bpypolyskel/bpypolyskel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 68e65bc..97c3fd4 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -862,7 +862,12 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
-                   continue
+                    # a surviving vertex has got a new neighbor in the meantime
+                    for v in (i.vertex_a, i.vertex_b):
+                        ev = v.next_event() if v.is_valid else None
+                        if isinstance(ev, _SplitEvent) or (ev and ev.vertex_a.is_valid and ev.vertex_b.is_valid):
+                            prioque.put(ev)
+                    continue
                 (arc, events) = slav.handle_edge_event(i)
             elif isinstance(i, _SplitEvent):
                 if not i.vertex.is_valid:
-- 
2.43.0


From 991826bf9089424d05ff41567da3c6f7e5c2bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 04/44] fix: reduce the disturbance of split events at
 rectangular corners

The offset of 1% displaced the nodes by up to 5 mm per meter of height and
changed the order of events, the cause of most footprints with crossing edges.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 97c3fd4..b328ff4 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -169,7 +169,7 @@ class _LAVertex:
                     linvec = (self.point - i).normalized()
                     edvec = edge.edge.norm
                     if abs(self.bisector.v.cross(linvec) - 1.0) < EPSILON:
-                        linvec = (self.point - i + edvec*0.01 ).normalized()
+                        linvec = (self.point - i + edvec*0.001 ).normalized()
                     if self.bisector.v.cross(linvec) < 0: 
                         edvec = -edvec
 
-- 
2.43.0


From 685fe0f057edba01daa2d50e7ff77dbd7a7de454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 05/44] fix: search events for both new vertices when a split
 event merges contours

When the wavefront of a hole meets another contour, both new vertices are in
the same LAV, but only one of them got its next event.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b328ff4..84b0d76 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -419,7 +419,7 @@ class _SLAV:
         for l in new_lavs:
             if len(l) > 2:
                 self._lavs.append(l)
-                vertices.append(l.head)
+                vertices.extend(v for v in (v1, v2) if v.lav is l)
             else:
                 # LAV has collapsed into the line
                 sinks.append(l.head.next.point)
-- 
2.43.0


From 3300e60ef2164e801f4cbaf913f625ac379b3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 06/44] fix: make the detection of dormers independent of the
 first contour vertex

The neighbor turns were taken from the last pattern match instead of the
current one, and the events of a dormer that wraps around the end of the
contour were taken in the wrong order.
---
 bpypolyskel/bpypolyskel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 84b0d76..cae0aed 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -771,8 +771,8 @@ def detectDormers(slav, edgeContours):
         d = abs(d1-d2)/(d1+d2)  # "contrast" of side edges lengths^2
         d3 = outerContour[(oi[0]+N-1)%N].length_squared()   # length^2 of previous edge
         d4 = outerContour[oi[3]].length_squared()           # length^2 of next edge
-        facLeft = 0.125 if sequence[(s+N-1)%N] != 'L' else 1.5
-        facRight = 0.125 if sequence[(s+4)%N] != 'L' else 1.5
+        facLeft = 0.125 if sequence[(oi[0]+N-1)%N] != 'L' else 1.5
+        facRight = 0.125 if sequence[(oi[0]+4)%N] != 'L' else 1.5
         if w < 100 and d < 0.35 and d3 >= w*facLeft and d4 >= w*facRight:
             dormers.append((oi,(outerContour[oi[1]].p1-outerContour[oi[1]].p2).magnitude))
             
@@ -783,7 +783,7 @@ def processDormers(dormers,initialEvents):
     dormerEventIndices = []
     for dormer in dormers:
         dormerIndices = dormer[0]
-        d_events = [ev for i,ev in enumerate(initialEvents) if i in dormerIndices]
+        d_events = [initialEvents[i] for i in dormerIndices]
         if all([(d is not None) for d in d_events]): # if all events are valid
             if  not isinstance(d_events[0], _SplitEvent) or \
                 not isinstance(d_events[1], _EdgeEvent) or \
-- 
2.43.0


From 6c40ef2cb5dddd7de1f886651737d262dbe9cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 07/44] fix: let vertices that move on a common line meet at
 the point further ahead

---
 bpypolyskel/bpypolyskel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index cae0aed..25f1a23 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -146,6 +146,17 @@ class _LAVertex:
     def is_valid(self):
         return self._valid
 
+    def _meet(self, other):
+        # A vertex created by a split event may lie on the bisector of its neighbor, so that
+        # both move on the same line and their common edge has already collapsed.
+        v0 = self.bisector.v.normalized()
+        v1 = other.bisector.v.normalized()
+        if v0.dot(v1) > 0. and abs(v0.cross(v1)) < EPSILON:
+            d = self.point - other.point
+            if abs(v0.cross(d)) < 0.001:
+                return self.point if v0.dot(d) > 0. else other.point
+        return self.bisector.intersect(other.bisector)
+
     def next_event(self):
         events = []
         if self.is_reflex:
@@ -197,8 +208,8 @@ class _LAVertex:
                     # Found valid candidate
                     events.append(_SplitEvent(Line2(edge.edge).distance(b), b, self, edge.edge))
 
-        i_prev = self.bisector.intersect(self.prev.bisector)
-        i_next = self.bisector.intersect(self.next.bisector)
+        i_prev = self._meet(self.prev)
+        i_next = self._meet(self.next)
 
         if i_prev is not None:
             events.append(_EdgeEvent(Line2(self.edge_prev).distance(i_prev), i_prev, self.prev, self))
-- 
2.43.0


From 22ddffa16920fdef6fdf15b18f4740a43057c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 08/44] fix: give the roof node of a dormer half the width of
 its base as height

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 25f1a23..c019aa9 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -346,7 +346,7 @@ class _SLAV:
         arcs.append( Subtree(ev_edge.intersection_point, ev_edge.distance, [ev_edge.vertex_a.point,ev_edge.vertex_b.point,p] ) )
 
         # from split events
-        arcs.append( Subtree(p, (ev_prev.distance+ev_next.distance)/2.0, [v_prev.point,v_next.point])   )
+        arcs.append( Subtree(p, event.distance, [v_prev.point,v_next.point])   )
     
         for v in toRemove:
             v.invalidate()
-- 
2.43.0


From 6f60ef3a0ea65de7ecc79c69e9517fd6a16670e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 09/44] fix: look for further spikes in a face whose first
 spike can't be removed

---
 bpypolyskel/bpypolyskel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index c019aa9..6dd2a61 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1098,6 +1098,9 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                     continue
                 crossSine = s0.cross(s1)
                 if abs(dotCosine + 1.0) < PARALLEL and crossSine > -EPSILON: # spike edge to left
+                    # part of spike is original polygon and cant get removed, but there may be others
+                    if this < firstSkelIndex and (prev < firstSkelIndex or _next < firstSkelIndex):
+                        continue
                     # the spike's peak is at 'this'
                     hadSpikes = True
                     break
-- 
2.43.0


From 501b82f907e5f09ebf11def6323d99da9461500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 10/44] fix: keep a vertex of a straight skeleton edge that
 remains in an adjacent triangle

---
 bpypolyskel/bpypolyskel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 6dd2a61..9656254 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1163,14 +1163,16 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
 
     # fix adjacent parallel edges in faces
     counts = Counter(chain.from_iterable(faces3D))
+    triangleVerts = set(chain.from_iterable(face for face in faces3D if len(face) <= 3))
     for face in faces3D:
         if len(face) > 3:   # a triangle cant have parallel edges
             verticesToRemove = []
             for prev, this, _next in _iterCircularPrevThisNext(face):
                 # Can eventually remove vertice, if it appears only in 
                 # two adjacent faces, otherwise its a node.
-                # But do not remove original polygon vertices.
-                if counts[this] < 3 and this >= firstSkelIndex:
+                # But do not remove original polygon vertices, nor a vertice that
+                # has to remain in an adjacent triangle.
+                if counts[this] < 3 and this >= firstSkelIndex and this not in triangleVerts:
                     s0 = verts[this]-verts[prev]
                     s1 = verts[_next]-verts[this]
                     s0 = mathutils.Vector((s0[0],s0[1]))    # need 2D-vector
-- 
2.43.0


From 5d44a00352ebfa3664d2b7c64bd2cc687870d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 11/44] fix: merge identical skeleton nodes near the center of
 an apse

---
 bpypolyskel/bpypolyskel.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 9656254..cf078cd 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -33,6 +33,7 @@ from .bpyeuclid import *
 from .poly2FacesGraph import poly2FacesGraph
 
 EPSILON = 0.00001
+identicalThresh = 0.001 # nodes nearer than that only differ by floating-point inaccuracies
 PARALLEL = 0.01     # set this value to 1-cos(alpha), where alpha is the largest angle 
                     # between lines to accept them as parallelaccepted as 'parallel'.
 
@@ -605,8 +606,8 @@ def findClusters(skeleton, candidates, contourVertices, edgeContours, thresh):
             if c in candidates:
                 candidates.remove(c)
         if len(cluster)>1:
-            # if cluster is near to an apse center, don't merge any nodes
-            if apseCenters:
+            # if cluster is near to an apse center, don't merge any nodes, except identical ones
+            if apseCenters and thresh > identicalThresh:
                 isApseCluster = False
                 for apseCenter in apseCenters:
                     for node in cluster:
@@ -711,19 +712,20 @@ def mergeNodeClusters(skeleton,edgeContours):
 
     # Merge all clusters that have small distances due to floating-point inaccuracies
     smallThresh = 0.1
-    hadCluster = True
-    while hadCluster:
-        hadCluster = False
-        # find clusters within short range and short height difference
-        candidates = [c for c in range(len(skeleton))]
-        clusters = findClusters(skeleton,candidates,contourVertices,edgeContours,smallThresh) 
-        # check if there are cluster candidates
-        if not clusters:
-            break
+    for thresh in (identicalThresh, smallThresh):
         hadCluster = True
-        # use largest cluster
-        cluster = max(clusters, key = lambda clstr: len(clstr))
-        mergeCluster(skeleton, cluster)
+        while hadCluster:
+            hadCluster = False
+            # find clusters within short range and short height difference
+            candidates = [c for c in range(len(skeleton))]
+            clusters = findClusters(skeleton,candidates,contourVertices,edgeContours,thresh) 
+            # check if there are cluster candidates
+            if not clusters:
+                break
+            hadCluster = True
+            # use largest cluster
+            cluster = max(clusters, key = lambda clstr: len(clstr))
+            mergeCluster(skeleton, cluster)
 
     return skeleton
 
-- 
2.43.0


From f8de3a914a2826d78ccfe8925c74c63f2e230858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:34 +0000
Subject: [PATCH 12/44] fix: find the edge events of neighbors whose bisectors
 start at or pass their common point

---
 bpypolyskel/bpypolyskel.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index cf078cd..07d93cf 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -148,6 +148,10 @@ class _LAVertex:
         return self._valid
 
     def _meet(self, other):
+        # point, where this vertex meets its neighbor, or None
+        if (self.point - other.point).magnitude < 0.001:
+            # the common edge has already collapsed
+            return self.point
         # A vertex created by a split event may lie on the bisector of its neighbor, so that
         # both move on the same line and their common edge has already collapsed.
         v0 = self.bisector.v.normalized()
@@ -156,7 +160,15 @@ class _LAVertex:
             d = self.point - other.point
             if abs(v0.cross(d)) < 0.001:
                 return self.point if v0.dot(d) > 0. else other.point
-        return self.bisector.intersect(other.bisector)
+        i = self.bisector.intersect(other.bisector)
+        if i is None:
+            # the bisectors may miss each other at their origins due to floating-point inaccuracies
+            i = Line2(self.bisector).intersect(Line2(other.bisector))
+            if i is not None:
+                for point,v in ((self.point,v0),(other.point,v1)):
+                    if v.dot(i - point) < 0. and (i - point).magnitude > 0.001:
+                        return None
+        return i
 
     def next_event(self):
         events = []
-- 
2.43.0


From 824de58aee1634f3eaed28f74155e07dbf75c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 13/44] fix: drop the edge event of a ridge vertex that meets
 its other neighbor earlier

---
 bpypolyskel/bpypolyskel.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 07d93cf..fbe9dba 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -170,6 +170,14 @@ class _LAVertex:
                         return None
         return i
 
+    def _meetsEarlier(self, other, point):
+        # A vertex between antiparallel edges immediately runs along the whole ridge. Does it
+        # meet its neighbor <other> before it arrives at <point>?
+        if self.edge_prev.norm.dot(self.edge_next.norm) > EPSILON - 1.:
+            return False
+        i = self._meet(other)
+        return i is not None and (i - self.point).magnitude < (point - self.point).magnitude - 0.001
+
     def next_event(self):
         events = []
         if self.is_reflex:
@@ -223,6 +231,10 @@ class _LAVertex:
 
         i_prev = self._meet(self.prev)
         i_next = self._meet(self.next)
+        if i_prev is not None and self.prev._meetsEarlier(self.prev.prev, i_prev):
+            i_prev = None
+        if i_next is not None and self.next._meetsEarlier(self.next.next, i_next):
+            i_next = None
 
         if i_prev is not None:
             events.append(_EdgeEvent(Line2(self.edge_prev).distance(i_prev), i_prev, self.prev, self))
-- 
2.43.0


From 8fb4725ffb633e81fa67ab1ab3d7b21117d335d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 14/44] fix: search events for the vertices beside a dormer
 after its removal

---
 bpypolyskel/bpypolyskel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index fbe9dba..87c8094 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -376,7 +376,14 @@ class _SLAV:
         for v in toRemove:
             v.invalidate()
 
-        return (arcs, [])
+        # the vertices beside the dormer have got a new neighbor
+        events = []
+        for v in (v_prev.prev, v_next.next):
+            next_event = v.next_event()
+            if next_event is not None:
+                events.append(next_event)
+
+        return (arcs, events)
 
     def handle_edge_event(self, event):
         sinks = []
-- 
2.43.0


From b450aab07064b0824b812606774428884d250c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 15/44] fix: do not treat a bay as dormer when other edges
 split it before it is closed

---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 87c8094..2ab6f50 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -841,6 +841,10 @@ def processDormers(dormers,initialEvents):
             if p is None:   # the bisectors don't meet, so this can't be handled as dormer
                 continue
             d = dormer[1]/2.0
+            # a dormer isn't closed, if one of these vertices is split before by an edge elsewhere
+            dormerEdges = (v_prev.edge_prev, v_prev.edge_next, v_prev.next.edge_next, v_next.edge_prev, v_next.edge_next)
+            if any( ev.distance < d-0.001 and ev.opposite_edge not in dormerEdges for ev in (ev_prev,ev_next) ):
+                continue
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
             dormerEventIndices.extend(dormerIndices)
-- 
2.43.0


From 5590aea72183974e416c272d4d0eb0cce7f706ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 16/44] fix: do not split the part of an edge that is in line
 with, but behind a ridge

---
 bpypolyskel/bpypolyskel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 2ab6f50..78e3864 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -170,10 +170,13 @@ class _LAVertex:
                         return None
         return i
 
+    def _isRidge(self):
+        # A vertex between antiparallel edges immediately runs along the whole ridge.
+        return self.edge_prev.norm.dot(self.edge_next.norm) < EPSILON - 1.
+
     def _meetsEarlier(self, other, point):
-        # A vertex between antiparallel edges immediately runs along the whole ridge. Does it
-        # meet its neighbor <other> before it arrives at <point>?
-        if self.edge_prev.norm.dot(self.edge_next.norm) > EPSILON - 1.:
+        # Does this vertex meet its neighbor <other> before it runs along a ridge to <point>?
+        if not self._isRidge():
             return False
         i = self._meet(other)
         return i is not None and (i - self.point).magnitude < (point - self.point).magnitude - 0.001
@@ -427,7 +430,10 @@ class _SLAV:
                 xprev	= (y.bisector.v.normalized()).cross((event.intersection_point - y.point).normalized()) <= EPSILON
                 xnext	= (x.bisector.v.normalized()).cross((event.intersection_point - x.point).normalized()) >= -EPSILON
 
-                if xprev and xnext:
+                # the edge doesn't extend behind the start of a ridge, although it is in line with it
+                behind = any( v._isRidge() and v.bisector.v.normalized().dot(event.intersection_point - v.point) < -0.001 for v in (x,y) )
+
+                if xprev and xnext and not behind:
                     break
                 else:
                     x = None
-- 
2.43.0


From e6237eb0411bb0ed63933ce9ca2a6a95ff80a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 17/44] fix: leave the vertices of a pending dormer to its
 event

---
 bpypolyskel/bpypolyskel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 78e3864..ad14fc9 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -105,6 +105,7 @@ class _LAVertex:
         self.prev = None
         self.next = None
         self.lav = None
+        self.inDormer = False   # True as long as the vertex is handled by a dormer event
         self._valid = True  # TODO this might be handled better. Maybe membership in lav implies validity?
 
         # creator_vectors are unit vectors: ( V(i) to V(i-1), V(i) to V(i+1) )
@@ -382,7 +383,7 @@ class _SLAV:
         # the vertices beside the dormer have got a new neighbor
         events = []
         for v in (v_prev.prev, v_next.next):
-            next_event = v.next_event()
+            next_event = v.next_event() if not v.inDormer else None
             if next_event is not None:
                 events.append(next_event)
 
@@ -854,6 +855,8 @@ def processDormers(dormers,initialEvents):
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
             dormerEventIndices.extend(dormerIndices)
+            for v in (v_prev, v_prev.next, v_next.prev, v_next):
+                v.inDormer = True
 
     remainingEvents = [ev for i,ev in enumerate(initialEvents) if i not in dormerEventIndices]
     del initialEvents[:]
@@ -918,7 +921,7 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                 if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
                     # a surviving vertex has got a new neighbor in the meantime
                     for v in (i.vertex_a, i.vertex_b):
-                        ev = v.next_event() if v.is_valid else None
+                        ev = v.next_event() if v.is_valid and not v.inDormer else None
                         if isinstance(ev, _SplitEvent) or (ev and ev.vertex_a.is_valid and ev.vertex_b.is_valid):
                             prioque.put(ev)
                     continue
-- 
2.43.0


From 784ecdf7285bb0b91700ad30eac57847750c7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:21 +0000
Subject: [PATCH 18/44] fix: proceed with the remaining vertices of a dormer
 that was changed by another event

---
 bpypolyskel/bpypolyskel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index ad14fc9..33c1159 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -81,6 +81,10 @@ class DormerEvent():
         self.distance = distance
         self.intersection_point = intersection_point
         self.eventList = eventList
+        v_prev, v_next = eventList[0].vertex, eventList[1].vertex
+        self.vertices = (v_prev, v_prev.next, v_next.prev, v_next)
+        for v in self.vertices:
+            v.inDormer = True
     def __lt__(self, other):
         # print('difference S: ', self.distance - other.distance, self.distance < other.distance, (self.distance - other.distance)< -EPSILON)
         return self.distance < other.distance
@@ -855,8 +859,6 @@ def processDormers(dormers,initialEvents):
             # process events:                         split1       split2       edge
             dormerEvents.append( DormerEvent(d, p, [d_events[0], d_events[3] ,d_events[1]]) )
             dormerEventIndices.extend(dormerIndices)
-            for v in (v_prev, v_prev.next, v_next.prev, v_next):
-                v.inDormer = True
 
     remainingEvents = [ev for i,ev in enumerate(initialEvents) if i not in dormerEventIndices]
     del initialEvents[:]
@@ -931,7 +933,12 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                     continue
                 (arc, events) = slav.handle_split_event(i)
             elif isinstance(i, DormerEvent):
-                if not i.eventList[0].vertex.is_valid or not i.eventList[1].vertex.is_valid:
+                if not all(v.is_valid for v in i.vertices):
+                    # the dormer has been changed by another event, proceed without it
+                    for v in i.vertices:
+                        v.inDormer = False
+                        if v.is_valid:
+                            prioque.put(v.next_event())
                     continue
                 (arc, events) = slav.handle_dormer_event(i)
             prioque.put_all(events)
-- 
2.43.0


From fc9c051c3d7f51c8224e3f4b05b9abf0f219eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 19/44] fix: search another event for a vertex whose split
 event fails

---
 bpypolyskel/bpypolyskel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 33c1159..dff1b49 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -109,6 +109,7 @@ class _LAVertex:
         self.prev = None
         self.next = None
         self.lav = None
+        self.missedEdges = []   # edges that this vertex tried to split in vain
         self.inDormer = False   # True as long as the vertex is handled by a dormer event
         self._valid = True  # TODO this might be handled better. Maybe membership in lav implies validity?
 
@@ -192,7 +193,7 @@ class _LAVertex:
             # a reflex vertex may generate a split event
             # split events happen when a vertex hits an opposite edge, splitting the polygon in two.
             for edge in self.original_edges:
-                if edge.edge == self.edge_prev or edge.edge == self.edge_next:
+                if edge.edge == self.edge_prev or edge.edge == self.edge_next or edge.edge in self.missedEdges:
                     continue
 
                 # a potential b is at the intersection of between our own bisector and the bisector of the
@@ -445,8 +446,10 @@ class _SLAV:
                     y = None
 
         if x is None:
-            # Split event failed (equivalent edge event is expected to follow)
-            return (None, [])
+            # Split event failed, either an equivalent edge event follows or another edge gets split
+            event.vertex.missedEdges.append(event.opposite_edge)
+            next_event = event.vertex.next_event()
+            return (None, [next_event] if next_event is not None else [])
 
         v1 = _LAVertex(event.intersection_point, event.vertex.edge_prev, event.opposite_edge,None,True)
         v2 = _LAVertex(event.intersection_point, event.opposite_edge, event.vertex.edge_next,None,True)
-- 
2.43.0


From ff19dbf5d8bb10995288d280396575cd9a0fb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 20/44] fix: keep sinks that are already equal to the source of
 a merged cluster

---
 bpypolyskel/bpypolyskel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index dff1b49..7eafca8 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -720,12 +720,14 @@ def mergeCluster(skeleton, cluster):
     for arc in skeleton:
         if arc.source not in mergedSources:
             to_remove = []
+            redirected = False  # a sink may already be equal to new_source
             for i,sink in enumerate(arc.sinks):
                 if sink in mergedSources:
-                    if new_source in arc.sinks:
+                    if redirected:
                         to_remove.append(i)
                     else: 
                         arc.sinks[i] = new_source
+                        redirected = True
             for i in sorted(to_remove, reverse = True):
                 del arc.sinks[i]
 
-- 
2.43.0


From fc79a12b6c803159fad56e0d8b35ae6a0aeab503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 21/44] fix: an edge event is outdated when its vertices are
 not neighbors anymore

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7eafca8..97e8243 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -925,7 +925,7 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
         topEventList = prioque.getAllEqualDistance()
         for i in topEventList:
             if isinstance(i, _EdgeEvent):
-                if not i.vertex_a.is_valid or not i.vertex_b.is_valid:
+                if not i.vertex_a.is_valid or not i.vertex_b.is_valid or i.vertex_a.next is not i.vertex_b:
                     # a surviving vertex has got a new neighbor in the meantime
                     for v in (i.vertex_a, i.vertex_b):
                         ev = v.next_event() if v.is_valid and not v.inDormer else None
-- 
2.43.0


From b208d5712dfe96437682902486ccc1d98bc63f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 22/44] fix: do not split parts of an edge behind vertices that
 are at the distance of the event

---
 bpypolyskel/bpypolyskel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 97e8243..d422e84 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -439,6 +439,12 @@ class _SLAV:
                 # the edge doesn't extend behind the start of a ridge, although it is in line with it
                 behind = any( v._isRidge() and v.bisector.v.normalized().dot(event.intersection_point - v.point) < -0.001 for v in (x,y) )
 
+                # nor does it extend behind vertices that are already there at the distance of the event
+                line = Line2(event.opposite_edge)
+                for v,side in ((y,-1.),(x,1.)):
+                    if line.distance(v.point) > event.distance - 0.001 and side * norm.dot(event.intersection_point - v.point) > 0.001:
+                        behind = True
+
                 if xprev and xnext and not behind:
                     break
                 else:
-- 
2.43.0


From 3879610d85dd376ef8cbd304464e4e5e60182af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 23/44] fix: let vertices that move towards each other on a
 common line meet at the later one

---
 bpypolyskel/bpypolyskel.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index d422e84..041f90c 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -162,10 +162,17 @@ class _LAVertex:
         # both move on the same line and their common edge has already collapsed.
         v0 = self.bisector.v.normalized()
         v1 = other.bisector.v.normalized()
-        if v0.dot(v1) > 0. and abs(v0.cross(v1)) < EPSILON:
+        if abs(v0.cross(v1)) < EPSILON:
             d = self.point - other.point
             if abs(v0.cross(d)) < 0.001:
-                return self.point if v0.dot(d) > 0. else other.point
+                if v0.dot(v1) > 0.:
+                    return self.point if v0.dot(d) > 0. else other.point
+                # They move towards each other, the intersection is undefined. The vertex
+                # that has been created later remains at its place.
+                edge = Line2(self.edge_next if other is self.next else self.edge_prev)
+                d0, d1 = edge.distance(self.point), edge.distance(other.point)
+                if abs(d0-d1) > 0.001:
+                    return self.point if d0 > d1 else other.point
         i = self.bisector.intersect(other.bisector)
         if i is None:
             # the bisectors may miss each other at their origins due to floating-point inaccuracies
-- 
2.43.0


From c5ce2ec3c3d288c3a02170fe411e18d03933a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 24/44] fix: a split event at the place of a neighbor is an
 edge event

---
 bpypolyskel/bpypolyskel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 041f90c..01e7d53 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -424,6 +424,13 @@ class _SLAV:
         return (Subtree(event.intersection_point, event.distance, sinks), events)
 
     def handle_split_event(self, event):
+        # another split event may have brought a neighbor to the same place
+        for v in (event.vertex.prev, event.vertex.next):
+            if (v.point - event.intersection_point).magnitude < 0.001:
+                a, b = (v, event.vertex) if v is event.vertex.prev else (event.vertex, v)
+                (arc, events) = self.handle_edge_event(_EdgeEvent(event.distance, event.intersection_point, a, b))
+                return (arc, events)
+
         lav = event.vertex.lav
 
         sinks = [event.vertex.point]
-- 
2.43.0


From 8b82bd60d0e97d8d60a4b0c340b291ad380b8c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:47 +0000
Subject: [PATCH 25/44] fix: do not disturb split events at rectangular corners

The reduced offset still displaced nodes by half a millimeter per meter of height, which
changed the order of events that happen at once.
---
 bpypolyskel/bpypolyskel.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 01e7d53..64beeb1 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -216,8 +216,6 @@ class _LAVertex:
                     # locate candidate b
                     linvec = (self.point - i).normalized()
                     edvec = edge.edge.norm
-                    if abs(self.bisector.v.cross(linvec) - 1.0) < EPSILON:
-                        linvec = (self.point - i + edvec*0.001 ).normalized()
                     if self.bisector.v.cross(linvec) < 0: 
                         edvec = -edvec
 
-- 
2.43.0


From 8167994ce02b42d9e912ac919f16629e6da70c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 26/44] fix: do not connect a merged node twice with the same
 node

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 64beeb1..55996de 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -738,7 +738,7 @@ def mergeCluster(skeleton, cluster):
     for arc in skeleton:
         if arc.source not in mergedSources:
             to_remove = []
-            redirected = False  # a sink may already be equal to new_source
+            redirected = arc.source in new_sinks    # the new node may already be connected with it
             for i,sink in enumerate(arc.sinks):
                 if sink in mergedSources:
                     if redirected:
-- 
2.43.0


From 91805406316134daa86d3964b563955fdb936500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 27/44] fix: do not search the center of an apse whose vertices
 are in line

---
 bpypolyskel/bpyeuclid.py   | 2 ++
 bpypolyskel/bpypolyskel.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpyeuclid.py b/bpypolyskel/bpyeuclid.py
index 7d25e36..1873af5 100644
--- a/bpypolyskel/bpyeuclid.py
+++ b/bpypolyskel/bpyeuclid.py
@@ -102,6 +102,8 @@ def fitCircle3Points(points):
     z = complex(points[-1].x, points[-1].y)
     w = z-x
     w /= y-x
+    if w.imag == 0.0:   # points in line
+        return None
     c = (x-y)*(w-abs(w)**2)/2j/w.imag-x
     x0 = -c.real
     y0 = -c.imag
diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 55996de..b3ae70b 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -648,8 +648,9 @@ def detectApses(outerContour):
         if s < N and s >= nextStart:
             apseIndices = [ i%len(sequence) for i in range(*apse.span())]
             apseVertices = [outerContour[i].p1 for i in apseIndices]
-            center, R = fitCircle3Points(apseVertices)
-            centers.append(center)
+            circle = fitCircle3Points(apseVertices)
+            if circle:  # there is no center, if the vertices are in line
+                centers.append(circle[0])
     
     return centers
 
-- 
2.43.0


From 6ec3432654e2b81ef3f100720bd61bf8f2c633d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 28/44] fix: split the part of an edge that belongs to the
 contour of the splitting vertex

---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b3ae70b..4098196 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -436,7 +436,8 @@ class _SLAV:
         x = None  # next vertex
         y = None  # previous vertex
         norm = event.opposite_edge.norm
-        for v in chain.from_iterable(self._lavs):
+        # if the edge is already split at this place, the part that belongs to the LAV of the vertex precedes
+        for v in chain.from_iterable( [lav] + [l for l in self._lavs if l is not lav] ):
             if norm == v.edge_prev.norm and event.opposite_edge.p1 == v.edge_prev.p1:
                 x = v
                 y = x.prev
-- 
2.43.0


From a1f21454b3d077d0d2f351c114d28c754750115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 29/44] fix: proceed without a dormer whose vertices were
 separated by a split event

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 4098196..9b18616 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -958,7 +958,7 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                     continue
                 (arc, events) = slav.handle_split_event(i)
             elif isinstance(i, DormerEvent):
-                if not all(v.is_valid for v in i.vertices):
+                if not all(v.is_valid for v in i.vertices) or any(a.next is not b for a,b in zip(i.vertices, i.vertices[1:])):
                     # the dormer has been changed by another event, proceed without it
                     for v in i.vertices:
                         v.inDormer = False
-- 
2.43.0


From 23e81e5c40d3a00bebb72353d0ed1f00f0dc431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 30/44] fix: close the ridge when the contour collapses with
 the removal of a dormer

---
 bpypolyskel/bpypolyskel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 9b18616..f4fb555 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -390,6 +390,14 @@ class _SLAV:
         for v in toRemove:
             v.invalidate()
 
+        if len(new_lav[0]) == 2:
+            # LAV has collapsed into a ridge through the peak of the dormer
+            self._lavs.remove(new_lav[0])
+            for v in list(new_lav[0]):
+                arcs[-1].sinks.append(v.point)
+                v.invalidate()
+            return (arcs, [])
+
         # the vertices beside the dormer have got a new neighbor
         events = []
         for v in (v_prev.prev, v_next.next):
-- 
2.43.0


From f81e69b8991fd54a6a0396bda817ae84b17399c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 31/44] fix: restart the search for ghost edges after one has
 been removed

---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index f4fb555..4422fa4 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -632,6 +632,8 @@ def removeGhosts(skeleton):
                                     arc.sinks.remove(nearSink)
                                     sinksAltered = True
                                     break
+                            if sinksAltered:
+                                break   # the remaining pairs are outdated
 
 def detectApses(outerContour):
     import re
-- 
2.43.0


From 5e377cb64aa6ca40bbe4901bdd7e5240f1369f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 32/44] fix: do not add an edge of the graph twice

---
 bpypolyskel/poly2FacesGraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index a854348..a7afcfe 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -40,8 +40,9 @@ class poly2FacesGraph:
             vertex2 = edge.pop()
             self.add_vertex(vertex1)
             self.add_vertex(vertex2)
-            self.g_dict[vertex1].append(vertex2)
-            self.g_dict[vertex2].append(vertex1)
+            if vertex2 not in self.g_dict[vertex1]: # an edge separates only two faces
+                self.g_dict[vertex1].append(vertex2)
+                self.g_dict[vertex2].append(vertex1)
 
     def edges(self):
     # returns the edges of the graph
-- 
2.43.0


From c92bfc6e649c2228a32f9e5cab37a594d2c5d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 33/44] fix: a floating edge of the skeleton is not a face

---
 bpypolyskel/poly2FacesGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index a7afcfe..01e88a8 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -119,7 +119,8 @@ class poly2FacesGraph:
                 face = face[nextOrigIndex:] + face[:nextOrigIndex]
             # convert edge list in vertices list
             vert_list = [e[0] for e in face]
-            if any(i >= nrOfPolyVerts for i in vert_list): # exclude polygon and holes
+            # exclude polygon and holes, and a floating edge (it has got no area)
+            if len(vert_list) > 2 and any(i >= nrOfPolyVerts for i in vert_list):
                 final_faces.append(vert_list)
         return final_faces
 
-- 
2.43.0


From f2f4e0bd03877609f04078ec5ac1be735a686b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 34/44] fix: do not treat a bay as dormer when one of its
 bisectors passes through the other vertex

The roof node of the dormer would be at the place of a contour vertex and
polygonize() raised ZeroDivisionError.
---
 bpypolyskel/bpypolyskel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 4422fa4..dd7b4bc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -886,6 +886,8 @@ def processDormers(dormers,initialEvents):
             p = v_prev.bisector.intersect(v_next.bisector)
             if p is None:   # the bisectors don't meet, so this can't be handled as dormer
                 continue
+            if any( (p - v.point).magnitude < identicalThresh for v in (v_prev,v_next) ):
+                continue    # one of the bisectors passes through the other vertex, neither can this
             d = dormer[1]/2.0
             # a dormer isn't closed, if one of these vertices is split before by an edge elsewhere
             dormerEdges = (v_prev.edge_prev, v_prev.edge_next, v_prev.next.edge_next, v_next.edge_prev, v_next.edge_next)
-- 
2.43.0


From ba2dcd6b1e925891d183374c5a4d665a899b6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 35/44] fix: accept larger inaccuracies of identical skeleton
 nodes

Nodes of an apse far from its straight end differed by 0.0018 and remained separate,
depending on the position of the building.
---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index dd7b4bc..420aabc 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -33,7 +33,7 @@ from .bpyeuclid import *
 from .poly2FacesGraph import poly2FacesGraph
 
 EPSILON = 0.00001
-identicalThresh = 0.001 # nodes nearer than that only differ by floating-point inaccuracies
+identicalThresh = 0.005 # nodes nearer than that only differ by floating-point inaccuracies
 PARALLEL = 0.01     # set this value to 1-cos(alpha), where alpha is the largest angle 
                     # between lines to accept them as parallelaccepted as 'parallel'.
 
-- 
2.43.0


From 24fa64141917b76779017a1c7108b19b2d1aa8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 36/44] fix: make the order of the faces independent of the
 place of the vertices in the list

Sets of indices are traversed in an order that depends on the indices, and so did the
removal of spikes, which led to different roofs for the same footprint.
---
 bpypolyskel/poly2FacesGraph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/bpypolyskel/poly2FacesGraph.py b/bpypolyskel/poly2FacesGraph.py
index 01e88a8..99001fb 100644
--- a/bpypolyskel/poly2FacesGraph.py
+++ b/bpypolyskel/poly2FacesGraph.py
@@ -34,10 +34,9 @@ class poly2FacesGraph:
     def add_edge(self, edge):
     # edge of type set, tuple or list,
     # loops are not allowed, but not tested. 
-        edge = set(edge)
+        edge = list(dict.fromkeys(edge))
         if len(edge) == 2:  # exclude loops
-            vertex1 = edge.pop()
-            vertex2 = edge.pop()
+            vertex1, vertex2 = edge
             self.add_vertex(vertex1)
             self.add_vertex(vertex2)
             if vertex2 not in self.g_dict[vertex1]: # an edge separates only two faces
@@ -70,10 +69,11 @@ class poly2FacesGraph:
     def faces(self, embedding, nrOfPolyVerts):
         # adapted from SAGE's trace_faces
 
-        # establish set of possible edges
-        edgeset = set([])
+        # establish set of possible edges (a dictionary, because it keeps its order)
+        edgeset = {}
         for edge in self.edges():
-            edgeset = edgeset.union( set([(edge[0],edge[1]),(edge[1],edge[0])]))
+            edgeset[(edge[0],edge[1])] = None
+            edgeset[(edge[1],edge[0])] = None
 
         # storage for face paths
         faces = []
@@ -81,7 +81,7 @@ class poly2FacesGraph:
         face_id = 0
         for edge in edgeset:
             path.append(edge)
-            edgeset -= set([edge])
+            del edgeset[edge]
             break  # (Only one iteration)
 
         # Trace faces
@@ -97,13 +97,13 @@ class poly2FacesGraph:
                 path = []
                 for edge in edgeset:
                     path.append(edge)
-                    edgeset -= set([edge])
+                    del edgeset[edge]
                     break  # (Only one iteration)
             else:
                 if tup in path:
                     raise Exception('Endless loop catched in poly2FacesGraph faces()') 
                 path.append(tup)
-                edgeset -= set([tup])
+                edgeset.pop(tup, None)
         if (len(path) != 0):
             # convert edge list in vertices list
             vert_list = [e[0] for e in path]
-- 
2.43.0


From 4573d0c85ff97669d979bb8c1deced729c162d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 37/44] fix: tolerate the inaccuracy of coordinates when a
 vertex splits the end of an edge

---
 bpypolyskel/bpypolyskel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 420aabc..769754b 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -97,6 +97,12 @@ _OriginalEdge = namedtuple("_OriginalEdge", "edge bisector_prev, bisector_next")
 
 Subtree = namedtuple("Subtree", "source, height, sinks")
 
+def _sideOf(bisector, point):
+    # signed distance of <point> to <bisector>, where inaccuracies of the coordinates count as zero
+    d = point - bisector.p
+    distance = bisector.v.normalized().cross(d)
+    return distance if abs(distance) > max(EPSILON * d.magnitude, 0.0001) else 0.
+
 class _LAVertex:
     def __init__(self, point, edge_prev, edge_next, direction_vectors=None,forceConvex=False):
         # point is the vertex V(i)
@@ -231,8 +237,8 @@ class _LAVertex:
 
                     # check eligibility of b
                     # a valid b should lie within the area limited by the edge and the bisectors of its two vertices:
-                    xprev	= ( (edge.bisector_prev.v.normalized()).cross( (b - edge.bisector_prev.p).normalized() )) < EPSILON
-                    xnext	= ( (edge.bisector_next.v.normalized()).cross( (b - edge.bisector_next.p).normalized() )) > -EPSILON
+                    xprev	= _sideOf(edge.bisector_prev, b) <= 0.
+                    xnext	= _sideOf(edge.bisector_next, b) >= 0.
                     xedge	= ( edge.edge.norm.cross( (b - edge.edge.p1).normalized() )) > -EPSILON
 
                     parallel = edge.bisector_next.v.length == 0.
@@ -454,8 +460,8 @@ class _SLAV:
                 x = y.next
 
             if x:
-                xprev	= (y.bisector.v.normalized()).cross((event.intersection_point - y.point).normalized()) <= EPSILON
-                xnext	= (x.bisector.v.normalized()).cross((event.intersection_point - x.point).normalized()) >= -EPSILON
+                xprev	= _sideOf(y.bisector, event.intersection_point) <= 0.
+                xnext	= _sideOf(x.bisector, event.intersection_point) >= 0.
 
                 # the edge doesn't extend behind the start of a ridge, although it is in line with it
                 behind = any( v._isRidge() and v.bisector.v.normalized().dot(event.intersection_point - v.point) < -0.001 for v in (x,y) )
-- 
2.43.0


From 099e6e1d9b21715ce0a4256e57a4d90c9853c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 38/44] fix: keep the faces of the walls beside a spike that is
 cut off a face

---
 bpypolyskel/bpypolyskel.py | 42 +++++++++++++-------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 769754b..51474ff 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1221,38 +1221,24 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
                 hadSpikes = False
                 continue
 
-            if rightIndx == leftIndx:   # single line into a face, but not separating it
-                commonFace = faces3D[rightIndx]
+            rightFace, leftFace = faces3D[rightIndx], faces3D[leftIndx]
+            if rightFace is face and leftFace is face:   # single line into a face, but not separating it
                 # remove the spike vertice and one of its neighbors
-                commonFace.remove(this)
-                commonFace.remove(prev)
-                if this in face:
-                    face.remove(this)
+                face.remove(this)
+                face.remove(prev)
                 break   # that's it for this face
 
-            # rotate right face so that 'prev' is in first place
-            rightFace = faces3D[rightIndx]
-            rotIndex = next(x[0] for x in enumerate(rightFace)  if x[1] == prev )
-            rightFace = rightFace[rotIndex:] + rightFace[:rotIndex]
-
-            # rotate left face so that 'this' is in first place
-            leftFace = faces3D[leftIndx]
-            rotIndex = next(x[0] for x in enumerate(leftFace)  if x[1] == this )
-            leftFace = leftFace[rotIndex:] + leftFace[:rotIndex]
-
-            mergedFace = rightFace + leftFace[1:]
-
-            # rotate edge list so that edge of original polygon is first edge
-            nextOrigIndex = next(x[0] for x in enumerate(mergedFace) if x[0]<firstSkelIndex and x[1]< firstSkelIndex)
-            mergedFace = mergedFace[nextOrigIndex:] + mergedFace[:nextOrigIndex]
-
-            if mergedFace == face:  # no change, will result in endless loop
-                raise Exception('Endless loop in spike removal') 
+            # a face that touches itself in the spike can't be changed
+            if rightFace is face or leftFace is face:
+                hadSpikes = False
+                continue
 
-            face.remove(this) # remove the spike
-            for i in sorted([rightIndx,leftIndx], reverse = True):
-                del faces3D[i]
-            faces3D.append(mergedFace)
+            # Cut the spike off, the sliver becomes a part of the face adjacent to its longer edge
+            # (the other end of the shorter edge is almost on this edge). Both faces keep their walls.
+            face.remove(this)
+            adjacentFace, start, end, new = (leftFace,_next,this,prev) if s0m < s1m else (rightFace,this,prev,_next)
+            index = next( i for i,e in enumerate(zip(adjacentFace, adjacentFace[1:]+adjacentFace[:1])) if e == (start,end) )
+            adjacentFace.insert(index+1, new)
 
             break   # break looping through faces and restart main while loop,
                     # because it is possible that new spikes have been generated
-- 
2.43.0


From 5d67de51adb8556644f6101425b4412bab8f35f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 39/44] fix: discard split events whose point is not as far
 from the edges of the vertex as from the opposite edge

When many vertices meet at one point, inaccurate bisectors produce split
events that lie far away and long before, which add nodes that don't belong
to the skeleton.
---
 bpypolyskel/bpypolyskel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 51474ff..f54b555 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -246,6 +246,10 @@ class _LAVertex:
                         # Candidate discarded
                         continue
 
+                    # the vertex has to be as far from its own edges as from the opposite edge
+                    if abs(Line2(selfedge).distance(b) - Line2(edge.edge).distance(b)) > 0.1:
+                        continue
+
                     # Found valid candidate
                     events.append(_SplitEvent(Line2(edge.edge).distance(b), b, self, edge.edge))
 
-- 
2.43.0


From af437e1435ae0046cbec1fba5ac80fd5a6331c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 40/44] fix: close contours that collapsed to a point, but lost
 their events by rounding

In large stars whose walls all meet at one point, the bisectors of the last
vertices may miss each other, and their contour vertices got no node.
---
 bpypolyskel/bpypolyskel.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index f54b555..b37067b 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -529,6 +529,21 @@ class _SLAV:
         event.vertex.invalidate()
         return (Subtree(event.intersection_point, event.distance, sinks), events)
 
+    def closeCollapsed(self):
+        # When many vertices meet at one point, the bisectors of the last ones may miss each other due to
+        # floating-point inaccuracies. Their LAV remains without events, although it collapsed to this point.
+        arcs = []
+        for lav in self._lavs:
+            vertices = list(lav)
+            distance, peak = max(((Line2(v.edge_next).distance(v.point), v.point) for v in vertices), key=lambda x: x[0])
+            if all( abs(Line2(v.edge_next).distance(peak) - distance) < 0.1 for v in vertices ):
+                sinks = []
+                for v in vertices:
+                    if v.point != peak and v.point not in sinks:
+                        sinks.append(v.point)
+                arcs.append( Subtree(peak, distance, sinks) )
+        return arcs
+
 
 class _EventQueue:
     def __init__(self):
@@ -996,6 +1011,8 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
                 else:
                     output.append(arc)
 
+    output.extend(slav.closeCollapsed())
+
     output = mergeNodeClusters(output,edgeContours)
     removeGhosts(output)
 
-- 
2.43.0


From 8897eb30fe4615ef928552eb0b3960026c96971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 41/44] fix: discard split events that lie on the contour

Rounding makes the bisector of a vertex inside pass through a contour vertex,
the event there added a node at the contour vertex (division by zero in the faces graph).
---
 bpypolyskel/bpypolyskel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index b37067b..79005ef 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -246,8 +246,10 @@ class _LAVertex:
                         # Candidate discarded
                         continue
 
-                    # the vertex has to be as far from its own edges as from the opposite edge
-                    if abs(Line2(selfedge).distance(b) - Line2(edge.edge).distance(b)) > 0.1:
+                    # the vertex has to be as far from its own edges as from the opposite edge,
+                    # and the wavefront never returns to the contour
+                    distance = Line2(edge.edge).distance(b)
+                    if abs(Line2(selfedge).distance(b) - distance) > 0.1 or distance < 0.0001:
                         continue
 
                     # Found valid candidate
-- 
2.43.0


From 85f4e5ad44cda23a4c638c9db139353142bc8505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:46 +0000
Subject: [PATCH 42/44] fix: do not count edges with a common node as crossing

The test is inaccurate for edges that are nearly in line, such as the diagonals of a square.
---
 bpypolyskel/bpypolyskel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 79005ef..f2fd53a 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -593,6 +593,9 @@ def checkEdgeCrossing(skeleton):
     combs = combinations(sk_edges,2)
     nrOfIntsects = 0
     for e in combs:
+        # edges with a common node don't cross (inaccurate, if they are nearly in line)
+        if e[0].p1 in (e[1].p1, e[1].p2) or e[0].p2 in (e[1].p1, e[1].p2):
+            continue
         # check for intersection, exclude endpoints
         denom = ((e[0].p2.x-e[0].p1.x)*(e[1].p2.y-e[1].p1.y))-((e[0].p2.y-e[0].p1.y)*(e[1].p2.x-e[1].p1.x))
         if not denom:
-- 
2.43.0


From 23831f1f85545d025c9e408f6a6af4f0e536efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 43/44] fix: remove adjacent identical vertices of a face by
 their position

---
 bpypolyskel/bpypolyskel.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index f2fd53a..27598a6 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -1297,13 +1297,8 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
             for item in verticesToRemove:
                 face.remove(item) 
 
-        # remove one of adjacent identical vertices
-        verticesToRemove = []
-        for prev,_next in _iterCircularPrevNext(face):
-            if prev == _next:
-                verticesToRemove.append(prev)
-        for item in verticesToRemove:
-            face.remove(item) 
+        # remove one of adjacent identical vertices (by position, because the vertice may occur elsewhere in the face)
+        face[:] = [ this for this,_next in zip(face, face[1:]+face[:1]) if this != _next ]
 
     if faces is None:
         return faces3D
-- 
2.43.0


From 19fbdf39bd676b1ace53682687efe1d2370dc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 44/44] fix: accept bisectors in line with rounding errors of
 their direction

---
 bpypolyskel/bpypolyskel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 27598a6..19945b9 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -168,7 +168,7 @@ class _LAVertex:
         # both move on the same line and their common edge has already collapsed.
         v0 = self.bisector.v.normalized()
         v1 = other.bisector.v.normalized()
-        if abs(v0.cross(v1)) < EPSILON:
+        if abs(v0.cross(v1)) < 0.001:
             d = self.point - other.point
             if abs(v0.cross(d)) < 0.001:
                 if v0.dot(v1) > 0.:
-- 
2.43.0

