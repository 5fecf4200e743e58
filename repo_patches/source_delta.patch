From 9e3f46ccbe6ba73d6d90dab0eb9d413625f84f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 001/137] fix: genus() of surfaces with boundary

eulerCharacteristic() counts the boundary loops as faces, so genus() must not
subtract them a second time: a cylinder was reported to have genus -1.
---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index a9cd376..ea9f3cc 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -519,9 +519,9 @@ int ManifoldSurfaceMesh::eulerCharacteristic() const {
 }
 
 int ManifoldSurfaceMesh::genus() const {
+  // note that eulerCharacteristic() already counts each boundary loop as a face
   int chi = eulerCharacteristic();
-  int boundaryLoops = nBoundaryLoops();
-  return (2 - boundaryLoops - chi) / 2;
+  return (2 - chi) / 2;
 }
 
 
-- 
2.43.0


From 9acff72767c81ccd098c4f4098cd18d2c731a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 002/137] fix: Vertex::isManifoldAndOriented() at boundary
 vertices of a general SurfaceMesh

---
 .../surface/halfedge_element_types.ipp        | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/geometrycentral/surface/halfedge_element_types.ipp b/include/geometrycentral/surface/halfedge_element_types.ipp
index cea15c1..b31537d 100644
--- a/include/geometrycentral/surface/halfedge_element_types.ipp
+++ b/include/geometrycentral/surface/halfedge_element_types.ipp
@@ -46,21 +46,13 @@ inline bool Vertex::isBoundary() const {
   }
 }
 inline bool Vertex::isManifoldAndOriented() const {
-  // TODO this routine is actually pretty nontrivial, it probably deserves some more thought
-  // strategy: bootstrap off of the adjacency iterator, which already has functionality for nonmanifold vertices
   if(mesh->usesImplicitTwin()) return true;
-  size_t d = degree(); 
-  size_t kManif = 0; 
-  Halfedge firstHe = halfedge();
-  Halfedge currHe = firstHe;
-  do {
-    kManif++;
-    currHe = currHe.twin().next();
-    if(currHe.vertex() != *this) return false;
-    if(kManif > d) return false;
-  } while(currHe != firstHe);
-
-  return kManif == d;
+  // a single (possibly open) fan of faces, with consistent orientation across each of its edges
+  if(!isManifold()) return false;
+  for(Edge e : adjacentEdges()) {
+    if(!e.isOriented()) return false;
+  }
+  return true;
 }
 inline bool Vertex::isManifold() const { 
   if(mesh->usesImplicitTwin()) return true;
-- 
2.43.0


From cec630533e1eb42cf9ac5c8ee84e006cd7d9ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 003/137] fix: nConnectedComponents() on a general SurfaceMesh

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 4d0bdeb..8870cd7 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -443,7 +443,7 @@ size_t SurfaceMesh::nConnectedComponents() {
   VertexData<size_t> vertInd = getVertexIndices();
   DisjointSets dj(nVertices());
   for (Edge e : edges()) {
-    dj.merge(vertInd[e.halfedge().vertex()], vertInd[e.halfedge().twin().vertex()]);
+    dj.merge(vertInd[e.firstVertex()], vertInd[e.secondVertex()]);
   }
   std::unordered_set<size_t> distinctComponents;
   for (size_t i = 0; i < nVertices(); i++) {
-- 
2.43.0


From 510a8670a75acd2dca1d2133cba393859c9f0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 004/137] fix: separateEdge() at a boundary vertex of
 non-triangular faces

---
 src/surface/manifold_surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index ea9f3cc..6e6534b 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -775,7 +775,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     Halfedge heCurr = he;
     do { // set new outgoing halfedge from vN
       heVertexArr[heCurr.getIndex()] = vN.getIndex();
-      heCurr = heCurr.next().next().twin();
+      heCurr = heCurr.prevOrbitFace().twin();
     } while (heCurr != heBN);
     heVertexArr[heCurr.getIndex()] = vN.getIndex();
 
-- 
2.43.0


From 2e589220675c2fc7437866d820e05800739ffcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 005/137] fix: interior halfedge count after separateEdge()

---
 src/surface/manifold_surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 6e6534b..8dde5a6 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -736,6 +736,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     heFaceArr[heT.getIndex()] = blN.getIndex();
     heFaceArr[heN1.getIndex()] = fB.getIndex();
     heFaceArr[heN2.getIndex()] = blN.getIndex();
+    nInteriorHalfedgesCount--; // heT is no longer interior
 
     fHalfedgeArr[fB.getIndex()] = heN1.getIndex();
     fHalfedgeArr[blN.getIndex()] = heT.getIndex();
@@ -783,6 +784,7 @@ std::tuple<Halfedge, Halfedge> ManifoldSurfaceMesh::separateEdge(Edge e) {
     // std::cout << heFaceArr[heT.getIndex()] << std::endl;
     heFaceArr[heN1.getIndex()] = fB.getIndex();
     heFaceArr[heN2.getIndex()] = bl.asFace().getIndex();
+    nInteriorHalfedgesCount--; // heT is no longer interior
 
     fHalfedgeArr[fB.getIndex()] = heN1.getIndex();
 
-- 
2.43.0


From 37d90e2ffae96539210fe934bca61a1688bbbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 006/137] fix: collapseEdgeTriangular() on a boundary edge
 whose tail is the tip of an ear

---
 src/surface/manifold_surface_mesh.cpp | 31 +++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 8dde5a6..1be937e 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1057,8 +1057,35 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     // Gather some values
     Halfedge heA0 = e.halfedge();
     if (heA0.vertex().degree() == 2) {
-      heA0 = heA0.next().next();
-      e = heA0.edge();
+      // The tail is the tip of an ear, and gets merged in to the other endpoint: the ear disappears, and the third edge
+      // of the triangle becomes the boundary
+      Halfedge heE1 = heA0.next();
+      Halfedge heE2 = heE1.next();
+      if (!heE1.twin().isInterior()) {
+        return Vertex(); // isolated triangle
+      }
+      Vertex vTip = heA0.vertex();
+      Vertex vKeep = heE1.vertex();
+      Vertex vSide = heE2.vertex();
+      Face fEar = heA0.face();
+      Face fLoop = heA0.twin().face(); // boundary loop
+      Halfedge heLoopPrev = vKeep.halfedge().twin();
+      Halfedge heLoopNext = heE2.twin().next();
+
+      deleteEdgeBundle(e);
+      deleteEdgeBundle(heE2.edge());
+      heNextArr[heLoopPrev.getIndex()] = heE1.getIndex();
+      heNextArr[heE1.getIndex()] = heLoopNext.getIndex();
+      heFaceArr[heE1.getIndex()] = fLoop.getIndex();
+      nInteriorHalfedgesCount--; // heE1 is no longer interior
+      fHalfedgeArr[fLoop.getIndex()] = heE1.getIndex();
+      vHalfedgeArr[vSide.getIndex()] = heE1.twin().getIndex();
+      ensureEdgeHasInteriorHalfedge(heE1.edge());
+      deleteElement(vTip);
+      deleteElement(fEar);
+
+      modificationTick++;
+      return vKeep;
     }
 
     // check if edge is part of a 'pinch' triangle
-- 
2.43.0


From 15f670bad9aa570eabdda39c3edd8fc9eb813313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 007/137] fix: interior halfedge count after
 removeFaceAlongBoundary()

---
 src/surface/manifold_surface_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 1be937e..7e625e6 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1393,6 +1393,7 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     // Update refs
     for (Halfedge he : f.adjacentHalfedges()) {
       heFaceArr[he.getIndex()] = bLoop.getIndex();
+      nInteriorHalfedgesCount--;
     }
 
     // Next refs
-- 
2.43.0


From 605e32e525ef23745c4dbd893bbfd100b273acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 008/137] fix: duplicateFace() creates interior halfedges

---
 src/surface/surface_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 8870cd7..78cdc3e 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -812,7 +812,7 @@ Face SurfaceMesh::duplicateFace(Face f) {
   bool first = true;
   Halfedge prevNewHe, firstNewHe;
   for (Halfedge oldHe : f.adjacentHalfedges()) {
-    Halfedge newHe = getNewHalfedge(false);
+    Halfedge newHe = getNewHalfedge(true);
 
     if (first) {
       fHalfedgeArr[newFace.getIndex()] = newHe.getIndex();
-- 
2.43.0


From c98aea585612837a9579fb1afaa6f4be84088588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 009/137] fix: removeFaceAlongBoundary() of non-triangular
 faces

---
 src/surface/manifold_surface_mesh.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 7e625e6..1089441 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1385,9 +1385,11 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
     Face bLoop = heT.face();
 
 
-    // Opposite vertex must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
-    if (heBPrev.vertex().isBoundary()) {
-      return false;
+    // Opposite vertices must not be a bounary vertex or this creates a nonmanifold mesh (imagine hourglass)
+    for (Halfedge he = heBNext.next(); he != heB; he = he.next()) {
+      if (he.vertex().isBoundary()) {
+        return false;
+      }
     }
 
     // Update refs
@@ -1402,7 +1404,9 @@ bool ManifoldSurfaceMesh::removeFaceAlongBoundary(Face f) {
 
     // Vertex halfedges
     vHalfedgeArr[heTNext.vertex().getIndex()] = heBPrev.twin().getIndex();
-    ensureVertexHasBoundaryHalfedge(heBPrev.vertex());
+    for (Halfedge he = heBNext; he != heBPrev; he = he.next()) {
+      ensureVertexHasBoundaryHalfedge(he.next().vertex());
+    }
 
     fHalfedgeArr[bLoop.getIndex()] = heTNext.getIndex();
 
-- 
2.43.0


From 5e2e98656caff1425862e9904c194285a032dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 010/137] fix: flip(e, preventSelfEdges) must not create a
 self-edge

---
 src/surface/surface_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 78cdc3e..78e80f5 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -878,6 +878,7 @@ bool SurfaceMesh::flip(Edge eFlip, bool preventSelfEdges) {
   Vertex vd = hb3.vertex();
 
   if (preventSelfEdges) {
+    if (vc == vd) return false;
     // If enabled, make sure it is not a duplicate
     for (Vertex v : vc.adjacentVertices()) {
       if (v == vd) return false;
-- 
2.43.0


From 0fdb869f66cfdccae845de70b0d52da6e37a697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 011/137] fix: compress() permuted boundary loop data in the
 wrong order

---
 src/surface/surface_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/surface_mesh.cpp b/src/surface/surface_mesh.cpp
index 78e80f5..966bc08 100644
--- a/src/surface/surface_mesh.cpp
+++ b/src/surface/surface_mesh.cpp
@@ -1892,6 +1892,7 @@ void SurfaceMesh::compressFaces() {
   for (auto& f : facePermuteCallbackList) {
     f(newIndMap);
   }
+  std::reverse(newBLIndMap.begin(), newBLIndMap.end()); // boundary loops are indexed from the back of the face array
   for (auto& f : boundaryLoopPermuteCallbackList) {
     f(newBLIndMap);
   }
-- 
2.43.0


From c5e2489b813d892cc06edaefefbab4654a52b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 012/137] fix: MeshData::reinterpretTo() sized the new
 container after the wrong mesh

---
 include/geometrycentral/utilities/mesh_data.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 8b60ebd..2a2bd6e 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -256,7 +256,9 @@ inline MeshData<E, T> MeshData<E, T>::reinterpretTo(ParentMeshT& targetMesh) con
   GC_SAFETY_ASSERT(nElements<E>(mesh) == nElements<E>(&targetMesh),
                    "meshes must have same number of elements to reinterpret");
   MeshData<E, T> newData(targetMesh, defaultValue);
-  newData.data = data;
+  // (the buffers may have different sizes, e.g. due to exterior corners)
+  Eigen::Index n = std::min(data.rows(), newData.data.rows());
+  newData.data.head(n) = data.head(n);
   return newData;
 }
 
-- 
2.43.0


From bbf74fff2f71752552a24cb282b2fc4f8a4c0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 013/137] fix: removeVertex() must not create a face of degree
 one

---
 src/surface/manifold_surface_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 1089441..85fb971 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1618,6 +1618,8 @@ Face ManifoldSurfaceMesh::removeVertex(Vertex v) {
     std::reverse(ringHalfedges.begin() + iStart, ringHalfedges.begin() + iEnd);
   }
 
+  if (ringHalfedges.size() < 2) return Face(); // would leave a degree-1 face
+
   Face keepFace = toRemove[0].face();
 
   { // Hook up next for the halfedges along the ring
-- 
2.43.0


From b1c3d9e24f7521c0d7b292d4f71680ff55672b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 014/137] fix: a moved-from MeshData must not stay registered
 with its mesh

---
 include/geometrycentral/utilities/mesh_data.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 2a2bd6e..2cf6b32 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -48,6 +48,10 @@ template <typename E, typename T>
 MeshData<E, T>::MeshData(MeshData<E, T>&& other) noexcept
     : mesh(other.mesh), defaultValue(other.defaultValue), data(std::move(other.data)) {
   registerWithMesh();
+
+  // detach the moved-from container, its buffer no longer matches the mesh
+  other.deregisterWithMesh();
+  other.mesh = nullptr;
 }
 
 
@@ -70,6 +74,12 @@ MeshData<E, T>& MeshData<E, T>::operator=(MeshData<E, T>&& other) noexcept {
   data = std::move(other.data);
   registerWithMesh();
 
+  // detach the moved-from container, its buffer no longer matches the mesh
+  if (this != &other) {
+    other.deregisterWithMesh();
+    other.mesh = nullptr;
+  }
+
   return *this;
 }
 
-- 
2.43.0


From 89022bb7c32810a92e0cdde51cb927a42fc095ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 015/137] fix: MeshData::setDefault() when there are no
 elements of the kind yet

---
 include/geometrycentral/utilities/mesh_data.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/utilities/mesh_data.ipp b/include/geometrycentral/utilities/mesh_data.ipp
index 2cf6b32..f080921 100644
--- a/include/geometrycentral/utilities/mesh_data.ipp
+++ b/include/geometrycentral/utilities/mesh_data.ipp
@@ -283,11 +283,11 @@ inline void MeshData<E, T>::setDefault(T newDefault) {
   // TODO this is pretty sloppy, and probably indicates a flaw in the design of this class... The default should
   // probably just be const instead.
   // TODO could avoid this (and some things in fill()) with an element_fill<E>() template
-  size_t maxInd = 0;
+  size_t indEnd = 0; // one past the largest used index
   for (E e : iterateElements<E>(mesh)) {
-    maxInd = std::max(maxInd, e.getIndex());
+    indEnd = std::max(indEnd, e.getIndex() + 1);
   }
-  for (size_t i = maxInd + 1; i < (size_t)data.size(); i++) {
+  for (size_t i = indEnd; i < (size_t)data.size(); i++) {
     data[i] = defaultValue;
   }
 }
-- 
2.43.0


From 2fe52978106c78641155b53831379a6b3158a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 016/137] fix: polygon face normals are the normalized vector
 area

---
 .../surface/vertex_position_geometry.ipp       | 18 +++++-------------
 src/surface/embedded_geometry_interface.cpp    | 18 +++++-------------
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/include/geometrycentral/surface/vertex_position_geometry.ipp b/include/geometrycentral/surface/vertex_position_geometry.ipp
index 6e8d94a..6d72d33 100644
--- a/include/geometrycentral/surface/vertex_position_geometry.ipp
+++ b/include/geometrycentral/surface/vertex_position_geometry.ipp
@@ -103,23 +103,15 @@ inline double VertexPositionGeometry::edgeCotanWeight(Edge e) const {
 
 // Face normal
 inline Vector3 VertexPositionGeometry::faceNormal(Face f) const {
-  // For general polygons, take the sum of the cross products at each corner
+  // For general polygons, compute the vector area by fanning out from the first vertex
   Vector3 normalSum = Vector3::zero();
-  for (Halfedge heF : f.adjacentHalfedges()) {
-
-    // Gather vertex positions for next three vertices
-    Halfedge he = heF;
-    Vector3 pA = vertexPositions[he.vertex()];
-    he = he.next();
+  Halfedge heFirst = f.halfedge();
+  Vector3 pA = vertexPositions[heFirst.vertex()];
+  for (Halfedge he = heFirst.next(); he.next() != heFirst; he = he.next()) {
     Vector3 pB = vertexPositions[he.vertex()];
-    he = he.next();
-    Vector3 pC = vertexPositions[he.vertex()];
+    Vector3 pC = vertexPositions[he.next().vertex()];
 
     normalSum += cross(pB - pA, pC - pA);
-
-    // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-    // same
-    if (he.next() == heF) break;
   }
 
   Vector3 normal = unit(normalSum);
diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index a32035b..ca50bba 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -84,23 +84,15 @@ void EmbeddedGeometryInterface::computeFaceNormals() {
 
   for (Face f : mesh.faces()) {
 
-    // For general polygons, take the sum of the cross products at each corner
+    // For general polygons, compute the vector area by fanning out from the first vertex
     Vector3 normalSum = Vector3::zero();
-    for (Halfedge heF : f.adjacentHalfedges()) {
-
-      // Gather vertex positions for next three vertices
-      Halfedge he = heF;
-      Vector3 pA = vertexPositions[he.vertex()];
-      he = he.next();
+    Halfedge heFirst = f.halfedge();
+    Vector3 pA = vertexPositions[heFirst.vertex()];
+    for (Halfedge he = heFirst.next(); he.next() != heFirst; he = he.next()) {
       Vector3 pB = vertexPositions[he.vertex()];
-      he = he.next();
-      Vector3 pC = vertexPositions[he.vertex()];
+      Vector3 pC = vertexPositions[he.next().vertex()];
 
       normalSum += cross(pB - pA, pC - pA);
-
-      // In the special case of a triangle, there is no need to to repeat at all three corners; the result will be the
-      // same
-      if (he.next() == heF) break;
     }
 
     Vector3 normal = unit(normalSum);
-- 
2.43.0


From 8c62f93b655b7556d4a93e15c49b7c71814c3e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 017/137] fix: d1 uses the halfedge orientation, so d1*d0=0 on
 nonmanifold meshes

---
 src/surface/intrinsic_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index a4bc788..5d77674 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -762,7 +762,7 @@ void IntrinsicGeometryInterface::computeDECOperators() {
 
       for (Halfedge he : f.adjacentHalfedges()) {
         size_t iEdge = edgeIndices[he.edge()];
-        double sign = (he == he.edge().halfedge()) ? (1.0) : (-1.0);
+        double sign = he.orientation() ? (1.0) : (-1.0);
         tripletList.emplace_back(iFace, iEdge, sign);
       }
     }
-- 
2.43.0


From 6542573b739f7b9f7d9c914819dd463d5e402585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 018/137] fix: purgeQuantities() also clears buffers left stale
 by refreshQuantities()

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index eca0e20..36955fd 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -85,7 +85,7 @@ void clearBuffer(std::pair<A, B>* buffer) {
 
 template <typename D>
 void DependentQuantityD<D>::clearIfNotRequired() {
-  if (clearable && requireCount <= 0 && dataBuffer != nullptr && computed) {
+  if (clearable && requireCount <= 0 && dataBuffer != nullptr) {
     clearBuffer(dataBuffer);
     computed = false;
   }
-- 
2.43.0


From 685c8f6ab470e122343e1690c385c2c941949393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 019/137] fix: an unbalanced unrequire() no longer leaves a
 negative count behind

---
 include/geometrycentral/utilities/dependent_quantity.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/dependent_quantity.ipp b/include/geometrycentral/utilities/dependent_quantity.ipp
index 36955fd..3e93e75 100644
--- a/include/geometrycentral/utilities/dependent_quantity.ipp
+++ b/include/geometrycentral/utilities/dependent_quantity.ipp
@@ -28,8 +28,8 @@ inline void DependentQuantity::unrequire() {
   requireCount--;
 
   if (requireCount < 0) {
-    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
     requireCount = 0;
+    throw std::logic_error("Quantity was unrequire()'d more than than it was require()'d");
   }
 }
 
-- 
2.43.0


From 6728810ff8c295e0b59f8f639a47b73489574f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 020/137] fix: the virtual vertex of a polygon no longer
 depends on its scale and position

---
 src/surface/polygon_mesh_helpers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/polygon_mesh_helpers.cpp b/src/surface/polygon_mesh_helpers.cpp
index 682ffb8..179ab8f 100644
--- a/src/surface/polygon_mesh_helpers.cpp
+++ b/src/surface/polygon_mesh_helpers.cpp
@@ -8,13 +8,19 @@ namespace surface {
 // (Modified to work in geometry-central. Original code can be found here:
 // https://github.com/mbotsch/polygon-laplacian)
 
-Eigen::VectorXd simplePolygonVirtualVertex(const Eigen::MatrixXd& poly) {
+Eigen::VectorXd simplePolygonVirtualVertex(const Eigen::MatrixXd& inputPoly) {
 
   // Given a polygon face, computes the affine weights that determine the position of the virtual vertex that minimizes
   // the sum of the squared areas of the triangles in the induced triangle fan. While the location of this vertex (the
   // minimizer) is unique, its expression as an affine combination of the polygon verties may not be -- regularize by
   // picking the weights with minimum L_2 norm, which encourages the weights to be as uniform as possible.
 
+  // The weights do not depend on the position or the size of the polygon. Normalize both, so that the linear system below
+  // (whose coefficients are of degree 4 in the coordinates, next to a row of ones) is well-scaled.
+  Eigen::MatrixXd poly = inputPoly.rowwise() - inputPoly.colwise().mean();
+  double polySize = poly.cwiseAbs().maxCoeff();
+  if (polySize > 0.) poly /= polySize;
+
   int n = poly.rows();
   Eigen::VectorXd weights(n);
   Eigen::MatrixXd J(n, n);
-- 
2.43.0


From 78a33a25a85839248dcdc9a8fcaa8e70df33739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 021/137] fix: the simple polygon Laplacian no longer drops all
 triangles of small meshes

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index ca50bba..3cf7add 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -508,7 +508,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::simplePolygonStiffnessMatrix(const Fa
     const double arg =
         (l[0] + (l[1] + l[2])) * (l[2] - (l[0] - l[1])) * (l[2] + (l[0] - l[1])) * (l[0] + (l[1] - l[2]));
     const double area = 0.5 * std::sqrt(arg);
-    if (area > 1e-7) {
+    if (area > 1e-7 * (l2[0] + l2[1] + l2[2])) { // relative: skip only degenerate triangles
       l[0] = 0.25 * (l2[1] + l2[2] - l2[0]) / area;
       l[1] = 0.25 * (l2[2] + l2[0] - l2[1]) / area;
       l[2] = 0.25 * (l2[0] + l2[1] - l2[2]) / area;
-- 
2.43.0


From e8e5368f4b8dc5dcff439ea5d7f06167d88fd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 022/137] fix: polygonGradientMatrix is the gradient, not its
 negative (and polygonDivergenceMatrix accordingly)

---
 src/surface/embedded_geometry_interface.cpp | 2 +-
 src/surface/polygon_mesh_heat_solver.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 3cf7add..822acb3 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -874,7 +874,7 @@ Eigen::MatrixXd EmbeddedGeometryInterface::polygonPerFaceGradientMatrix(const Fa
   double A = faceAreas[f];
   Vector3 n = faceNormals[f];
   Eigen::Vector3d N = {n[0], n[1], n[2]};
-  return 1. / A * bracket(N) * polygonCoGradientMatrix(f);
+  return -1. / A * bracket(N) * polygonCoGradientMatrix(f);
 }
 
 Eigen::MatrixXd EmbeddedGeometryInterface::polygonCoGradientMatrix(const Face& f) {
diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index a75f5c0..a645b12 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -210,7 +210,7 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
   geom.unrequireVertexTangentBasis();
 
   geom.requirePolygonDivergenceMatrix();
-  Vector<double> divYt = geom.polygonDivergenceMatrix * Y;
+  Vector<double> divYt = -geom.polygonDivergenceMatrix * Y;
   geom.unrequirePolygonDivergenceMatrix();
 
   Vector<double> phi;
-- 
2.43.0


From 37f4cbf1f862320e7b5e074c1848b04cf7bbf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:31 +0000
Subject: [PATCH 023/137] fix: tangent bases (and the polygon connection
 Laplacian) on manifold polygon meshes

---
 src/surface/embedded_geometry_interface.cpp | 28 +++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 822acb3..5c68c9e 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -141,6 +141,20 @@ void EmbeddedGeometryInterface::computeFaceTangentBasis() {
     return;
   }
 
+  if (!mesh.isTriangular()) {
+    // The intrinsic tangent spaces are only defined on triangle meshes; with general polygons, use the direction of
+    // face.halfedge() as the x-axis
+    for (Face f : mesh.faces()) {
+      Vector3 N = faceNormals[f];
+      Halfedge he = f.halfedge();
+      Vector3 eVec = vertexPositions[he.tipVertex()] - vertexPositions[he.tailVertex()];
+      Vector3 basisX = unit(eVec.removeComponent(N));
+      Vector3 basisY = cross(N, basisX);
+      faceTangentBasis[f] = {{basisX, basisY}};
+    }
+    return;
+  }
+
   halfedgeVectorsInFaceQ.ensureHave();
 
   for (Face f : mesh.faces()) {
@@ -189,6 +203,20 @@ void EmbeddedGeometryInterface::computeVertexTangentBasis() {
     return;
   }
 
+  if (!mesh.isTriangular()) {
+    // The intrinsic tangent spaces are only defined on triangle meshes; with general polygons, use the direction of
+    // vertex.halfedge() as the x-axis
+    for (Vertex v : mesh.vertices()) {
+      Vector3 N = vertexNormals[v];
+      Halfedge he = v.halfedge();
+      Vector3 eVec = vertexPositions[he.tipVertex()] - vertexPositions[he.tailVertex()];
+      Vector3 basisX = unit(eVec.removeComponent(N));
+      Vector3 basisY = cross(N, basisX);
+      vertexTangentBasis[v] = {{basisX, basisY}};
+    }
+    return;
+  }
+
   halfedgeVectorsInVertexQ.ensureHave();
   for (Vertex v : mesh.vertices()) {
 
-- 
2.43.0


From 7e31a967b1b8acf7b1ad023b5995c5e24481dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 024/137] fix: the polygon connection Laplacian rotates vertex
 tangent spaces exactly into face tangent planes (it had negative eigenvalues)

---
 src/surface/embedded_geometry_interface.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/surface/embedded_geometry_interface.cpp b/src/surface/embedded_geometry_interface.cpp
index 5c68c9e..4decd72 100644
--- a/src/surface/embedded_geometry_interface.cpp
+++ b/src/surface/embedded_geometry_interface.cpp
@@ -998,13 +998,15 @@ Eigen::Matrix2d EmbeddedGeometryInterface::Rvf(const Vertex& v, const Face& f) {
 }
 
 Eigen::Matrix3d EmbeddedGeometryInterface::Qvf(const Vertex& v, const Face& f) {
-  polygonVertexNormalsQ.ensureHave();
+  vertexNormalsQ.ensureHave();
   faceNormalsQ.ensureHave();
 
-  // Return 3 x 3 rotation matrix to align n_v to n_f.
+  // Return 3 x 3 rotation matrix to align n_v to n_f. Here n_v must be the normal of the tangent basis at the vertex, such
+  // that the basis is rotated into the tangent plane of the face.
   Vector3 n = faceNormals[f];
   Eigen::Vector3d nf = {n[0], n[1], n[2]};
-  Eigen::Vector3d nv = polygonVertexNormals[v];
+  Vector3 m = vertexNormals[v];
+  Eigen::Vector3d nv = {m[0], m[1], m[2]};
   double c = nv.dot(nf);
 
   // Special case for opposite nv and nf vectors.
-- 
2.43.0


From 0b348390e0f9a6cf9da99612477060687a65daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 025/137] fix: unpackMatrixToStdVector keeps the scalar type of
 the matrix

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 984178a..7ea56c7 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -96,7 +96,7 @@ std::vector<std::vector<T>> unpackMatrixToStdVector(const DenseMatrix<T>& mat) {
   size_t M = static_cast<size_t>(mat.cols());
 
   // Copy to vector representation
-  std::vector<std::vector<size_t>> vectors(N);
+  std::vector<std::vector<T>> vectors(N);
   for (size_t i = 0; i < N; i++) {
     vectors[i].resize(M);
     for (size_t j = 0; j < M; j++) {
-- 
2.43.0


From 0f3844fa20f6be1d93b96f470b6252d1b9f214e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 026/137] fix: checkFinite on row vectors reads the entries of
 the row

---
 include/geometrycentral/numerical/linear_algebra_utilities.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index 7ea56c7..b59da30 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -143,7 +143,7 @@ inline void checkFinite(const Eigen::Matrix<T, R, C>& m) {
 template <typename T, int C>
 inline void checkFinite(const Eigen::Matrix<T, 1, C>& m) {
   for (unsigned int j = 0; j < m.cols(); j++) {
-    if (!std::isfinite(m(1, j))) {
+    if (!isfinite(m(j))) {
       std::ostringstream msg;
       msg << "checkFinite() failure. Non-finite row vector entry [" << j << "] = " << m(j);
       // std::cerr << msg.str() << std::endl;
-- 
2.43.0


From 44264e86245578ce861dba2caaf95cf02e5855b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 027/137] fix: smallestKEigenvectorsPositiveDefiniteTol
 measures normalised vectors and always terminates for reachable tolerances

---
 src/numerical/eigenproblem_solvers.cpp | 38 ++++++++++++++++----------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/numerical/eigenproblem_solvers.cpp b/src/numerical/eigenproblem_solvers.cpp
index 567a56e..bd2aefe 100644
--- a/src/numerical/eigenproblem_solvers.cpp
+++ b/src/numerical/eigenproblem_solvers.cpp
@@ -101,28 +101,36 @@ std::vector<Vector<T>> smallestKEigenvectorsPositiveDefiniteTol(SparseMatrix<T>&
   size_t N = energyMatrix.rows();
   PositiveDefiniteSolver<T> solver(energyMatrix);
 
-  auto projectOutPreviousVectors = [&](Vector<T>& x) {
-    for (Vector<T>& v : res) {
-      T proj = ((v.dot(massMatrix * x)));
-      x -= proj * v;
+  auto projectOutPreviousVectors = [&](Vector<T>& x, size_t nPrev) {
+    for (size_t i = 0; i < nPrev; i++) {
+      T proj = ((res[i].dot(massMatrix * x)));
+      x -= proj * res[i];
     }
   };
 
+  // One step of inverse iteration for the k'th vector
+  auto iterate = [&](Vector<T>& x, size_t k) {
+    Vector<T> rhs = massMatrix * x;
+    solver.solve(x, rhs);
+    projectOutPreviousVectors(x, k);
+    normalize(x, massMatrix);
+  };
+
   for (size_t kEig = 0; kEig < kEigenvalues; kEig++) {
-    Vector<T> u = Vector<T>::Random(N);
-    projectOutPreviousVectors(u);
-    Vector<T> x = u;
+    Vector<T> x = Vector<T>::Random(N);
+    projectOutPreviousVectors(x, kEig);
+    normalize(x, massMatrix); // the residual is only meaningful for normalized vectors
     double residual = eigenvectorResidual(energyMatrix, massMatrix, x);
     while (residual > tol) {
-      // Solve
-      solver.solve(x, massMatrix * u);
-
-      projectOutPreviousVectors(x);
-      normalize(x, massMatrix);
-
-      // Update
-      u = x;
+      double prevResidual = residual;
+      iterate(x, kEig);
       residual = eigenvectorResidual(energyMatrix, massMatrix, x);
+
+      // The error of the previous vectors bounds how far we can converge after projecting them out. If that is holding
+      // us back, improve them as well.
+      if (residual > tol && residual > 0.9 * prevResidual) {
+        for (size_t i = 0; i < kEig; i++) iterate(res[i], i);
+      }
     }
 
     res.push_back(x);
-- 
2.43.0


From 023c7e85add677503d622ae6633627da0112e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 028/137] fix: the matrix loaders reject damaged files instead
 of reading or writing out of bounds

---
 .../numerical/linear_algebra_utilities.ipp    | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/geometrycentral/numerical/linear_algebra_utilities.ipp b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
index b59da30..1ca5c0f 100644
--- a/include/geometrycentral/numerical/linear_algebra_utilities.ipp
+++ b/include/geometrycentral/numerical/linear_algebra_utilities.ipp
@@ -463,16 +463,20 @@ SparseMatrix<T> loadSparseMatrix(std::istream& in) {
   while (getline(in, line)) {
     std::stringstream ss(line);
     std::string token;
-    ss >> token;
+    if (!(ss >> token)) continue; // blank line
     if (token == "#") {
       // Parse comment of the form (# sparse rows cols)
-      ss >> token >> rows >> cols;
+      if (!(ss >> token >> rows >> cols) || rows < 0 || cols < 0) {
+        throw std::runtime_error("failed to parse matrix: bad header " + line);
+      }
     } else {
       // Read triplet
-      int iRow = std::stoi(token);
-      int iCol;
+      std::stringstream ssEntry(line);
+      int iRow, iCol;
       T val;
-      ss >> iCol >> val;
+      if (!(ssEntry >> iRow >> iCol >> val) || iRow < 1 || iCol < 1) {
+        throw std::runtime_error("failed to parse matrix: bad entry " + line);
+      }
       // Shift from 1-indexed to 0-indexed
       iRow -= 1;
       iCol -= 1;
@@ -482,7 +486,7 @@ SparseMatrix<T> loadSparseMatrix(std::istream& in) {
     }
   }
 
-  if (cols > 0 && (maxCol >= cols || maxRow >= rows)) {
+  if (cols >= 0 && (maxCol >= cols || maxRow >= rows)) {
     std::cout << "Error: stated cols (" << cols << ") and rows (" << rows << ") are insufficient to fit all entries."
               << std::endl;
     std::cout << "       triplets are present with iRow=" << maxRow << " or iCol=" << maxCol << std::endl;
@@ -523,8 +527,8 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
   std::stringstream ss(line);
   std::string token, matrixType;
   int rows, cols;
-  ss >> token >> matrixType >> rows >> cols;
-  if (token != "#" || matrixType != "dense" || rows < 0 || cols < 0) {
+  bool parsed = static_cast<bool>(ss >> token >> matrixType >> rows >> cols);
+  if (!parsed || token != "#" || matrixType != "dense" || rows < 0 || cols < 0) {
     std::cout << "Error: first line of file must be of the form # dense cols rows." << std::endl;
     std::cout << "       instead, it was " << line << std::endl;
     throw std::runtime_error("failed to parse matrix");
@@ -536,14 +540,19 @@ DenseMatrix<T> loadDenseMatrix(std::istream& in) {
   // Parse matrix entries
   while (getline(in, line)) {
     std::stringstream ss(line);
+    if (iRow >= rows) {
+      if (ss >> token) throw std::runtime_error("failed to parse matrix: too many rows");
+      continue; // trailing blank line
+    }
     // Read entries
     T val;
     for (int iCol = 0; iCol < cols; iCol++) {
-      ss >> val;
+      if (!(ss >> val)) throw std::runtime_error("failed to parse matrix: bad row " + line);
       M(iRow, iCol) = val;
     }
     iRow++;
   }
+  if (iRow < rows && cols > 0) throw std::runtime_error("failed to parse matrix: too few rows");
 
   return M;
 }
-- 
2.43.0


From c6d076004b3803fb47c3a79fc17ba10d9a494fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 029/137] fix: inserting a vertex in a face invalidates the
 common subdivision of integer coordinates

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 6902916..aebeb68 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1230,6 +1230,8 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitFace(Face f, Vector3 bary,
   vertexAngleSums[newVertex] = 2 * M_PI;
   updateHalfedgeVectorsInVertex(newVertex);
 
+  triangulationChanged();
+
   invokeFaceInsertionCallbacks(f, newVertex);
 
   return newVertex;
-- 
2.43.0


From ca64df7f175b03d6b1fae53475e11477e1da643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 030/137] fix: vertices inserted on the boundary have angle sum
 pi

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index aebeb68..82aba35 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1403,7 +1403,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
       updateHalfedgeVectorsInVertex(v);
     }
 
-    vertexAngleSums[newVertex] = 2 * M_PI;
+    vertexAngleSums[newVertex] = M_PI;
     updateHalfedgeVectorsInVertex(newVertex);
 
     triangulationChanged();
-- 
2.43.0


From 8b5b33706d2ce6e6489b5899c0396fab8bad9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 031/137] fix: tracing an input edge across an inserted vertex
 looks at all corners of that vertex

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index 82aba35..b27e542 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1904,10 +1904,6 @@ IntegerCoordinatesIntrinsicTriangulation::traceNextCurve(const NormalCoordinates
           GC_SAFETY_ASSERT(c == incomingCorner, "there can only be one");
 
           return {true, normalCoordinates.topologicalTrace(c.halfedge().next(), finalPos)};
-
-        } else {
-          throw std::runtime_error("this shouldn't be possible");
-          return {false, NormalCoordinatesCurve{}};
         }
       }
     } else {
-- 
2.43.0


From e4ee4e9b9248755bd18d9ed6adb966efd3c7f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 032/137] fix: splitEdge of integer coordinates returns the
 halfedge in the direction of its argument, also along the boundary

---
 ...ger_coordinates_intrinsic_triangulation.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index b27e542..bb0f47a 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1249,6 +1249,13 @@ Vertex IntegerCoordinatesIntrinsicTriangulation::splitEdge(Edge e, double bary,
 Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he, double bary, bool verbose) {
   Edge e = he.edge();
 
+  // work along the interior halfedge
+  bool inputIsInterior = he.isInterior();
+  if (!inputIsInterior) {
+    he = he.twin();
+    bary = 1 - bary;
+  }
+
   auto heBary = [&](Halfedge he, double t) -> Vector3 {
     int i = halfedgeIndexInTriangle(he);
     int j = (i + 1) % 3;
@@ -1409,13 +1416,13 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitBoundaryEdge(Halfedge he
     triangulationChanged();
 
     Halfedge otherNewHalfedge = newHalfedge.next().next().twin().next().next().twin();
-    if (e == he.edge()) {
+    if (inputIsInterior) {
       invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
+      return newHalfedge;
     } else {
       invokeEdgeSplitCallbacks(e, otherNewHalfedge, newHalfedge);
+      return otherNewHalfedge;
     }
-
-    return newHalfedge;
   }
 }
 
@@ -1473,7 +1480,8 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   }
 
   // fix orientation
-  if (he != e.halfedge()) {
+  bool inputIsForward = (he == e.halfedge());
+  if (!inputIsForward) {
     bary = 1 - bary;
     iSeg = normalCoordinates[e] - iSeg;
   }
@@ -1563,7 +1571,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::splitInteriorEdge(Halfedge he
   triangulationChanged();
 
   Halfedge otherNewHalfedge = newHalfedge.next().next().twin().next().next().twin();
-  if (e == he.edge()) {
+  if (inputIsForward) {
     invokeEdgeSplitCallbacks(e, newHalfedge, otherNewHalfedge);
     return newHalfedge;
   } else {
-- 
2.43.0


From 08e1ed443c2e23e7ef1d8d7372e6e7a3f03e9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 033/137] fix: integer coordinates can trace, split and
 subdivide around vertices inserted on input edges

---
 ...eger_coordinates_intrinsic_triangulation.h |  8 +++
 src/surface/common_subdivision.cpp            |  9 ++--
 ...er_coordinates_intrinsic_triangulation.cpp | 52 +++++++++++++++----
 3 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
index de85c49..7d9ee65 100644
--- a/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
+++ b/include/geometrycentral/surface/integer_coordinates_intrinsic_triangulation.h
@@ -138,6 +138,14 @@ public:
 private:
   // Implementation details
 
+  // The halfedge of the input mesh running from src, which lies on an edge of the input mesh, towards dst, which lies
+  // on the same edge or is one of its endpoints
+  Halfedge inputHalfedgeFromEdgePoint(const SurfacePoint& src, const SurfacePoint& dst) const;
+
+  // The point at parameter t along a curve which traces (a part of) inputHe
+  SurfacePoint inputPointAlongCurve(const NormalCoordinatesCurve& path, Halfedge inputHe, double t) const;
+
+
   // Construct the common subdivision for the current triangulation.
   void constructCommonSubdivision() override;
 };
diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index 0cf727c..5ce90c3 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -298,11 +298,12 @@ std::tuple<size_t, size_t, size_t> CommonSubdivision::elementCounts() const {
 }
 
 size_t CommonSubdivision::intersectionsA(Edge eA) const {
-  if (pointsAlongA[eA].size() == 3 && pointsAlongA[eA][1]->intersectionType == CSIntersectionType::EDGE_PARALLEL) {
-    return 0; // shared edge;
-  } else {
-    return pointsAlongA[eA].size() - 2; // trim off endpoints
+  // don't count endpoints or the markers for shared (segments of) edges
+  size_t count = 0;
+  for (size_t iP = 1; iP + 1 < pointsAlongA[eA].size(); iP++) {
+    if (pointsAlongA[eA][iP]->intersectionType != CSIntersectionType::EDGE_PARALLEL) count++;
   }
+  return count;
 }
 
 size_t CommonSubdivision::intersectionsB(Edge eB) const {
diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index bb0f47a..cfe15bb 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -267,7 +267,7 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
 
         if (first) cs.pointsAlongA[eA].push_back(aVtx[src(eA)]);
         cs.pointsAlongA[eA].push_back(crPt);
-        cs.pointsAlongA[eA].push_back(bVtx[dst(eB)]);
+        cs.pointsAlongA[eA].push_back(bVtx[heB.tipVertex()]);
 
         cs.pointsAlongB[eB][1] = crPt;
       } else {
@@ -296,7 +296,8 @@ void IntegerCoordinatesIntrinsicTriangulation::constructCommonSubdivision() {
           if (!positiveOrientation) iB = positivePart(normalCoordinates[eB]) - iB - 1;
 
           cs.subdivisionPoints.push_back(CommonSubdivisionPoint{CSIntersectionType::EDGE_TRANSVERSE,
-                                                                SurfacePoint(eA, tA), ptB, positiveOrientation});
+                                                                inputPointAlongCurve(curve, eA.halfedge(), tA), ptB,
+                                                                positiveOrientation});
 
           CommonSubdivisionPoint* crPt = &cs.subdivisionPoints[cs.subdivisionPoints.size() - 1];
 
@@ -769,7 +770,7 @@ IntegerCoordinatesIntrinsicTriangulation::computeFaceSplitData(Face f, Vector3 b
         double tInput = transverseCrossingTimes[heIndex(he)][pos - 1];
         Halfedge heInput = identifyInputEdge(curves[heIndex(he)][pos - 1]);
         double tIntrinsic = boundaryCrossings[heIndex(he)][pos - 1];
-        return {heBary(he, tIntrinsic), SurfacePoint(heInput, tInput)};
+        return {heBary(he, tIntrinsic), inputPointAlongCurve(curves[heIndex(he)][pos - 1], heInput, tInput)};
       }
     };
 
@@ -1091,7 +1092,8 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       tSegmentTail = 0;
     } else {
       Halfedge tailHedge = identifyInputEdge(curves[crossingSegment - 1]);
-      segmentTail = SurfacePoint(tailHedge, transverseCrossingTimes[crossingSegment - 1]);
+      segmentTail =
+          inputPointAlongCurve(curves[crossingSegment - 1], tailHedge, transverseCrossingTimes[crossingSegment - 1]);
       tSegmentTail = heCrossingTimes[crossingSegment - 1];
     }
 
@@ -1100,7 +1102,8 @@ std::pair<SurfacePoint, size_t> IntegerCoordinatesIntrinsicTriangulation::comput
       tSegmentTip = 1;
     } else {
       Halfedge tipHedge = identifyInputEdge(curves[crossingSegment]);
-      segmentTip = SurfacePoint(tipHedge, transverseCrossingTimes[crossingSegment]);
+      segmentTip =
+          inputPointAlongCurve(curves[crossingSegment], tipHedge, transverseCrossingTimes[crossingSegment]);
       tSegmentTip = heCrossingTimes[crossingSegment];
     }
 
@@ -1939,9 +1942,7 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
   if (path.crossings[0].first < 0) {
     // If edge is shared, use roundabouts to identify shared edge
 
-    Halfedge he = path.crossings[0].second;
-    Vertex inputSrc = vertexLocations[he.vertex()].vertex;
-    return vertexHalfedge(inputSrc, normalCoordinates.roundabouts[he]);
+    return identifyInputEdge(path.crossings[0].second);
   } else {
     Halfedge he = path.crossings[0].second;
     int p = path.crossings[0].first - normalCoordinates.strictCornerCoord(he.corner());
@@ -1953,7 +1954,11 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(const Norma
     GC_SAFETY_ASSERT(p >= 0, "crossing must have nonnegative index");
 
     SurfacePoint src = vertexLocations[he.next().next().vertex()];
-    GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start at vertex");
+    if (src.type == SurfacePointType::Edge) {
+      // Starts at a vertex inserted along the input edge
+      return inputHalfedgeFromEdgePoint(src, vertexLocations[path.crossings.back().second.twin().next().tipVertex()]);
+    }
+    GC_SAFETY_ASSERT(src.type == SurfacePointType::Vertex, "edge must start at a vertex or on an edge");
     Vertex inputSrc = src.vertex;
 
     Halfedge hePrev = he.next().next();
@@ -1978,10 +1983,39 @@ Halfedge IntegerCoordinatesIntrinsicTriangulation::identifyInputEdge(Halfedge he
     return he;
   };
 
+  if (vertexLocations[he.vertex()].type == SurfacePointType::Edge) {
+    return inputHalfedgeFromEdgePoint(vertexLocations[he.vertex()], vertexLocations[he.tipVertex()]);
+  }
+
   Vertex src = vertexLocations[he.vertex()].vertex;
   return vertexHalfedge(src, normalCoordinates.roundabouts[he]);
 }
 
+Halfedge IntegerCoordinatesIntrinsicTriangulation::inputHalfedgeFromEdgePoint(const SurfacePoint& src,
+                                                                             const SurfacePoint& dst) const {
+  Halfedge inputHe = src.edge.halfedge();
+  bool forward = (dst.type == SurfacePointType::Edge) ? (dst.tEdge > src.tEdge) : (dst.vertex == inputHe.tipVertex());
+  return forward ? inputHe : inputHe.twin();
+}
+
+SurfacePoint IntegerCoordinatesIntrinsicTriangulation::inputPointAlongCurve(const NormalCoordinatesCurve& path,
+                                                                            Halfedge inputHe, double t) const {
+  Halfedge heFirst = path.crossings.front().second;
+  Halfedge heLast = path.crossings.back().second;
+  bool shared = path.crossings.front().first < 0;
+  SurfacePoint src = vertexLocations[shared ? heFirst.vertex() : heFirst.next().next().vertex()];
+  SurfacePoint dst = vertexLocations[shared ? heLast.tipVertex() : heLast.twin().next().tipVertex()];
+
+  // Parameter along inputHe of the ends of the curve. These might be vertices inserted in the middle of the edge.
+  auto tAlong = [&](const SurfacePoint& p, double tIfVertex) {
+    if (p.type != SurfacePointType::Edge) return tIfVertex;
+    return (inputHe == inputHe.edge().halfedge()) ? p.tEdge : 1. - p.tEdge;
+  };
+  double tSrc = tAlong(src, 0.);
+  double tDst = tAlong(dst, 1.);
+  return SurfacePoint(inputHe, (1. - t) * tSrc + t * tDst);
+}
+
 std::array<Vector2, 3> IntegerCoordinatesIntrinsicTriangulation::vertexCoordinatesInFace(Face face) const {
   // stolen from
   // gc/intrinsic_geometry_interface.cpp:computeHalfedgeVectorsInFace
-- 
2.43.0


From 1602c27a95d9fcdb2ef9c8d16a0960935741d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 034/137] fix: splitEdge of signposts returns the halfedge in
 the direction of its argument

---
 src/surface/signpost_intrinsic_triangulation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 9ab4aee..2f58171 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -578,7 +578,11 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 }
 
 Halfedge SignpostIntrinsicTriangulation::splitEdge(Halfedge he, double tSplit) {
-  return insertVertex_edge(SurfacePoint(he, tSplit));
+  bool isForward = (he == he.edge().halfedge());
+  Halfedge newHe = insertVertex_edge(SurfacePoint(he, tSplit));
+
+  // the halfedge above points along edge.halfedge(), return the one pointing along he
+  return isForward ? newHe : newHe.next().next().twin().next().next().twin();
 }
 
 
-- 
2.43.0


From 4b6fd717b62afdcc58d4b9a1d77e0b6122749ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 035/137] fix: the common subdivision of signposts records
 shared edges

---
 .../signpost_intrinsic_triangulation.cpp      | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index 2f58171..ae8b338 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -874,7 +874,7 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
 
     // Walk along the edge, any time we see two consecutive vertex points, there must be a
     // parallel edge there.
-    for (size_t iP = 1; iP + 1 < vec.size(); iP++) {
+    for (size_t iP = 1; iP < vec.size(); iP++) {
 
       if (vec[iP - 1]->posB.type == SurfacePointType::Vertex && vec[iP]->posB.type == SurfacePointType::Vertex) {
 
@@ -887,17 +887,21 @@ void SignpostIntrinsicTriangulation::constructCommonSubdivision() {
         csPoint.orientation = false; // TODO not properly populated. We don't propagate this info.
 
         // Find the matching edge on meshB
-        // Note: I'm 90% sure that this is fine, and this search should always find exactly one matching edge.
-        // The reasoning why is that the common subdivision is always a simplicial complex, and this segment is
-        // and edge of the common subdivision, so it must be unique between its endpoints.
-        bool found = false;
+        // There might be several edges between these vertices, of which only one runs along this segment. It is not
+        // crossed by anything, and has the same length as the segment.
+        double tStart = (iP == 1) ? 0. : vec[iP - 1]->posA.tEdge;
+        double tEnd = (iP + 1 == vec.size()) ? 1. : vec[iP]->posA.tEdge;
+        double segmentLength = (tEnd - tStart) * inputGeom.edgeLengths[e];
+        double bestDiff = std::numeric_limits<double>::infinity();
         for (Halfedge he : vec[iP - 1]->posB.vertex.outgoingHalfedges()) {
-          if (he.tipVertex() == vec[iP]->posB.vertex) {
+          if (he.tipVertex() != vec[iP]->posB.vertex || cs.pointsAlongB[he.edge()].size() != 2) continue;
+          double diff = std::abs(edgeLengths[he.edge()] - segmentLength);
+          if (diff < bestDiff) {
+            bestDiff = diff;
             csPoint.posB = SurfacePoint(he.edge(), 0.5);
-            found = true;
-            break;
           }
         }
+        bool found = std::isfinite(bestDiff);
         GC_SAFETY_ASSERT(found, "could not align shared edges in common subdivision");
 
         // Add the new point to both lists
-- 
2.43.0


From 100745df88cb7842218b8a40c6414bcf92845f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 036/137] fix: tracing an input edge over signposts returns
 points of the intrinsic triangulation also for shared edges

---
 .../signpost_intrinsic_triangulation.cpp      | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index ae8b338..ad7a1bb 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -102,22 +102,23 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
 std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlongIntrinsic(Halfedge inputHe,
                                                                                            bool trimEnd) {
 
-  // Optimization: don't bother tracing original edges, just report them directly
-  // Here we need to check if the corresponding intrinsic edge is original
-  Halfedge origHe = intrinsicMesh->halfedge(inputHe.getIndex()); // as usual, safe by dense construction
-  if (edgeIsOriginal[origHe.edge()]) {
-    Vertex vA = inputHe.tailVertex();
-    Vertex vB = inputHe.tipVertex();
-    std::vector<SurfacePoint> result{SurfacePoint(vA), SurfacePoint(vB)};
-    return result;
-  }
-
-
   Vertex vTail = inputHe.tailVertex();
   Vertex vTip = inputHe.tipVertex();
 
-  // Get the corresponding tail vertex on the intrinsic triangulation
+  // Get the corresponding vertices on the intrinsic triangulation
   Vertex vTailIntrinsic = intrinsicMesh->vertex(vTail.getIndex()); // as usual, safe by dense construction
+  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex());
+
+  // Optimization: don't bother tracing original edges, just report them directly
+  // Here we need to check if there is a corresponding intrinsic edge which is original. Its index need not be that of
+  // the input edge, since edges may have been removed.
+  Vector2 inputDir = inputGeom.halfedgeVectorsInVertex[inputHe].normalize();
+  for (Halfedge he : vTailIntrinsic.outgoingHalfedges()) {
+    if (edgeIsOriginal[he.edge()] && he.tipVertex() == vTipIntrinsic &&
+        dot(halfedgeVectorsInVertex[he].normalize(), inputDir) > 1. - 1e-8) {
+      return {SurfacePoint(vTailIntrinsic), SurfacePoint(vTipIntrinsic)};
+    }
+  }
 
   // Gather values to trace
   SurfacePoint startP = SurfacePoint(vTailIntrinsic);
@@ -130,7 +131,6 @@ std::vector<SurfacePoint> SignpostIntrinsicTriangulation::traceInputHalfedgeAlon
   TraceGeodesicResult result = traceGeodesic(*this, startP, traceVec, options);
 
   // Trim off end crumbs if applicable
-  Vertex vTipIntrinsic = intrinsicMesh->vertex(vTip.getIndex()); // as usual, safe by dense construction
   if (trimEnd) {
     bool success = trimTraceResult(result, vTipIntrinsic);
     if (success) {
-- 
2.43.0


From 002777c7a308076898a80229bd67e417c4f5ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 037/137] fix: minAngleDegreesAtValidFaces releases the angle
 sums it requires

---
 src/surface/intrinsic_triangulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/surface/intrinsic_triangulation.cpp b/src/surface/intrinsic_triangulation.cpp
index bf9d73d..2f1a8af 100644
--- a/src/surface/intrinsic_triangulation.cpp
+++ b/src/surface/intrinsic_triangulation.cpp
@@ -219,14 +219,16 @@ double IntrinsicTriangulation::minAngleDegreesAtValidFaces(double minAngleSum) c
     Face fInput = getParentFace(f);
     if (fInput == Face()) return true;
 
+    bool result = true;
     inputGeom.requireVertexAngleSums();
     for (Vertex v : fInput.adjacentVertices()) {
       if (inputGeom.vertexAngleSums[v] * 180 < M_PI * minAngleSum) {
-        return false;
+        result = false;
+        break;
       }
     }
     inputGeom.unrequireVertexAngleSums();
-    return true;
+    return result;
   };
 
   double minCornerAngle = 10;
-- 
2.43.0


From f91cd3fabd22445d11dac31d581284985ae7692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 038/137] fix: removeInsertedVertex gives up when the mesh
 refuses to remove the vertex

---
 src/surface/integer_coordinates_intrinsic_triangulation.cpp | 1 +
 src/surface/signpost_intrinsic_triangulation.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/surface/integer_coordinates_intrinsic_triangulation.cpp b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
index cfe15bb..3e9b4d7 100644
--- a/src/surface/integer_coordinates_intrinsic_triangulation.cpp
+++ b/src/surface/integer_coordinates_intrinsic_triangulation.cpp
@@ -1683,6 +1683,7 @@ Face IntegerCoordinatesIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // ==== Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // removal would not yield a valid mesh
 
   // ==== Update cached data
   // Edge lengths, normal coordinates, and roundabouts should be okay
diff --git a/src/surface/signpost_intrinsic_triangulation.cpp b/src/surface/signpost_intrinsic_triangulation.cpp
index ad7a1bb..6317ce0 100644
--- a/src/surface/signpost_intrinsic_triangulation.cpp
+++ b/src/surface/signpost_intrinsic_triangulation.cpp
@@ -572,6 +572,7 @@ Face SignpostIntrinsicTriangulation::removeInsertedVertex(Vertex v) {
 
   // Remove the vertex
   Face newF = intrinsicMesh->removeVertex(v);
+  if (newF == Face()) return Face(); // removal would not yield a valid mesh
   updateFaceBasis(newF);
   triangulationChanged();
   return newF;
-- 
2.43.0


From 4c76251021225b1af15755839f327eba6a69b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 039/137] fix: tracing from a vertex finds wedges wider than pi
 and falls back to the nearest edge, not to the opposite one

---
 src/surface/trace_geodesic.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7a9f55a..3b85b7f 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -526,12 +526,12 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Find the halfedge opening the wedge where tracing will start
   Halfedge wedgeHe;
-  Vector2 traceDirRelativeToStart;
+  double traceAngleRelativeToStart = 0.;
 
   // Normally, one of the interval tests below will return positive and we'll simply launch the trace in to that
   // interval. However, due to numerical misfortune, it is possible that none of the intervals will test positive. In
   // that case, we'll simply launch along whichever halfedge was closest.
-  double minCross = std::numeric_limits<double>::infinity();
+  double minDist = std::numeric_limits<double>::infinity();
   Halfedge minCrossHalfedge;
   Vector2 minCrossHalfedgeDir; // the trace vector in this closest halfedge
 
@@ -561,25 +561,28 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
     }
 
 
-    // Check if our trace vector lies within the interval
-    double crossStart = cross(intervalStart, currVecDir);
-    double crossEnd = cross(intervalEnd, currVecDir);
-    if (crossStart > 0. && crossEnd <= 0.) {
+    // Check if our trace vector lies within the interval. The interval may be wider than pi, so compare angles.
+    double wedgeAngle = (intervalEnd / intervalStart).arg();
+    if (nextHe == currHe || wedgeAngle <= 0.) wedgeAngle += 2. * M_PI;
+    double relAngle = (currVecDir / intervalStart).arg();
+    if (relAngle <= 0.) relAngle += 2. * M_PI;
+    if (relAngle <= wedgeAngle) {
       wedgeHe = currHe;
-      traceDirRelativeToStart = currVecDir / intervalStart;
-      if (TRACE_PRINT) cout << "    wedge match! relative angle " << traceDirRelativeToStart << endl;
-      if (TRACE_PRINT) cout << "    cross start = " << crossStart << " cross end = " << crossEnd << endl;
+      traceAngleRelativeToStart = relAngle;
+      if (TRACE_PRINT) cout << "    wedge match! relative angle " << relAngle << endl;
       break;
     }
 
     // Keep track of the closest halfedge, as described above
-    if (std::fabs(crossStart) < minCross) {
-      minCross = std::fabs(crossStart);
+    double distStart = norm(currVecDir - intervalStart);
+    double distEnd = norm(currVecDir - intervalEnd);
+    if (distStart < minDist) {
+      minDist = distStart;
       minCrossHalfedge = currHe;
       minCrossHalfedgeDir = Vector2{1, TRACE_EPS_TIGHT};
     }
-    if (std::fabs(crossEnd) < minCross) {
-      minCross = std::fabs(crossEnd);
+    if (distEnd < minDist) {
+      minDist = distEnd;
       minCrossHalfedge = nextHe;
       minCrossHalfedgeDir = Vector2{1, -TRACE_EPS_TIGHT};
     }
@@ -603,8 +606,7 @@ inline TraceSubResult traceGeodesic_fromVertex(IntrinsicGeometryInterface& geom,
 
   // Need to convert from "powered" representation to flat vector in face
   double sum = currVert.isBoundary() ? M_PI : 2. * M_PI;
-  traceDirRelativeToStart = traceDirRelativeToStart.pow(geom.vertexAngleSums[currVert] / sum);
-  traceDirRelativeToStart = traceDirRelativeToStart.normalize();
+  Vector2 traceDirRelativeToStart = Vector2::fromAngle(traceAngleRelativeToStart * geom.vertexAngleSums[currVert] / sum);
 
   // Compute the starting vector
   Vector2 startDirInFace = geom.halfedgeVectorsInFace[wedgeHe].normalize();
-- 
2.43.0


From 6b4292f64e379a75705e21e0720dfd52e0b92cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 040/137] fix: a trace along a zero vector ends where it
 started

---
 src/surface/trace_geodesic.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 3b85b7f..7cfd90c 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -707,14 +707,18 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, SurfacePoint
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
 
-    result.endingDir = Vector2::zero();
-    result.length = 0;
-
-    // probably want to ensure we still return a point in a face...
     if (traceOptions.errorOnProblem) {
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    // The trace ends where it started
+    result.endPoint = startP.inSomeFace();
+    if (traceOptions.includePath) {
+      result.pathPoints.push_back(result.endPoint);
+    }
+    result.endingDir = Vector2::zero();
+    result.length = 0;
+
     return result;
   }
 
@@ -776,11 +780,15 @@ TraceGeodesicResult traceGeodesic(IntrinsicGeometryInterface& geom, Face startFa
     geom.unrequireHalfedgeVectorsInVertex();
     geom.unrequireHalfedgeVectorsInFace();
 
-    // probably want to ensure we still return a point in a face...
     if (traceOptions.errorOnProblem) {
       throw std::runtime_error("zero vec passed to trace, do something good here");
     }
 
+    // The trace ends where it started
+    result.endPoint = SurfacePoint(startFace, startBary);
+    if (traceOptions.includePath) {
+      result.pathPoints.push_back(result.endPoint);
+    }
     result.endingDir = Vector2::zero();
     result.length = 0;
     return result;
-- 
2.43.0


From 6b056846a40e5e05035bf12d271abde21828eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 041/137] fix: a trace which leaves the surface at its start
 has length zero

---
 src/surface/trace_geodesic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 7cfd90c..fd50748 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -496,6 +496,7 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
       result.terminated = true;
       result.endPoint = SurfacePoint(currEdge, tEdge);
       result.incomingDirToPoint = currVecDir;
+      result.traceVectorInHalfedgeLen = currVecLen;
 
       return result;
     }
-- 
2.43.0


From 7db009d2dcfabdf30bca0dd08827101bf7748a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 042/137] fix: tracing reads no quantities which it does not
 require

---
 src/surface/trace_geodesic.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index fd50748..47af39d 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -135,8 +135,6 @@ inline TraceSubResult traceInFaceBarycentric(IntrinsicGeometryInterface& geom, F
 
   // Gather values
   std::array<Vector2, 3> vertexCoords = vertexCoordinatesInTriangle(geom, face);
-  Vector3 triangleLengths{geom.edgeLengths[face.halfedge().edge()], geom.edgeLengths[face.halfedge().next().edge()],
-                          geom.edgeLengths[face.halfedge().next().next().edge()]};
 
   if (sum(startPoint) < 0.5) {
     if (TRACE_PRINT) {
-- 
2.43.0


From de592756f22225fb224ba6f21b9237ba85c3c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 043/137] fix: points and vectors along an edge have coordinate
 0 at its tail and 1 at its tip

---
 include/geometrycentral/surface/barycentric_vector.ipp | 2 +-
 include/geometrycentral/surface/surface_point.ipp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 04f74d8..cdbe8ad 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -31,7 +31,7 @@ inline BarycentricVector::BarycentricVector(SurfacePoint pA, SurfacePoint pB) {
     double a = pA_in_edge.tEdge;
     double b = pB_in_edge.tEdge;
     edge = e;
-    edgeCoords = Vector2{b - a, a - b};
+    edgeCoords = Vector2{a - b, b - a};
     return;
   }
 
diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index 3c4f0b0..c82a2aa 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -151,9 +151,9 @@ inline SurfacePoint SurfacePoint::inEdge(Edge targetEdge) const {
   switch (type) {
   case SurfacePointType::Vertex:
     if (vertex == targetEdge.halfedge().tailVertex()) {
-      return SurfacePoint(targetEdge, 1);
+      return SurfacePoint(targetEdge, 0.);
     } else if (vertex == targetEdge.halfedge().tipVertex()) {
-      return SurfacePoint(targetEdge, 0);
+      return SurfacePoint(targetEdge, 1.);
     }
     break;
   case SurfacePointType::Edge:
-- 
2.43.0


From 51d6bb20f321d0bb23b787003927dd74df2448b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 044/137] fix: the mass matrices of a common subdivision
 triangulate it, as documented

---
 src/surface/common_subdivision.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/common_subdivision.cpp b/src/surface/common_subdivision.cpp
index 5ce90c3..b291cf0 100644
--- a/src/surface/common_subdivision.cpp
+++ b/src/surface/common_subdivision.cpp
@@ -229,6 +229,7 @@ EdgeData<double> CommonSubdivision::interpolateEdgeLengthsB(const EdgeData<doubl
 
 SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromPositionsA(const VertexData<Vector3>& positionsA) {
   checkMeshConstructed();
+  if (!mesh->isTriangular()) triangulateMesh();
   VertexPositionGeometry geo(*mesh, interpolateAcrossA(positionsA));
   geo.requireVertexGalerkinMassMatrix();
   return geo.vertexGalerkinMassMatrix;
@@ -236,6 +237,7 @@ SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromPositionsA(c
 
 SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromPositionsB(const VertexData<Vector3>& positionsB) {
   checkMeshConstructed();
+  if (!mesh->isTriangular()) triangulateMesh();
   VertexPositionGeometry geo(*mesh, interpolateAcrossB(positionsB));
   geo.requireVertexGalerkinMassMatrix();
   return geo.vertexGalerkinMassMatrix;
@@ -243,6 +245,7 @@ SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromPositionsB(c
 
 SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromLengthsA(const EdgeData<double>& lengthsA) {
   checkMeshConstructed();
+  if (!mesh->isTriangular()) triangulateMesh();
   EdgeLengthGeometry geo(*mesh, interpolateEdgeLengthsA(lengthsA));
   geo.requireVertexGalerkinMassMatrix();
   return geo.vertexGalerkinMassMatrix;
@@ -250,6 +253,7 @@ SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromLengthsA(con
 
 SparseMatrix<double> CommonSubdivision::vertexGalerkinMassMatrixFromLengthsB(const EdgeData<double>& lengthsB) {
   checkMeshConstructed();
+  if (!mesh->isTriangular()) triangulateMesh();
   EdgeLengthGeometry geo(*mesh, interpolateEdgeLengthsB(lengthsB));
   geo.requireVertexGalerkinMassMatrix();
   return geo.vertexGalerkinMassMatrix;
-- 
2.43.0


From 97910f6620b55710002a588e2fd9367ca9ac0e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 045/137] fix: traces along a boundary edge are not stopped by
 rounding

---
 src/surface/trace_geodesic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 47af39d..00fb6b8 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -481,7 +481,9 @@ inline TraceSubResult traceGeodesic_fromEdge(IntrinsicGeometryInterface& geom, E
   // Check which side of the face we're exiting
   Halfedge traceHe;
   Vector2 halfedgeTraceDir;
-  if (currVecDir.y >= 0.) {
+  // (directions along a boundary edge go to its only side)
+  bool alongBoundary = !currEdge.halfedge().twin().isInterior() && currVecDir.y > -TRACE_EPS_LOOSE;
+  if (currVecDir.y >= 0. || alongBoundary) {
     traceHe = currEdge.halfedge().twin();
     halfedgeTraceDir = -currVecDir;
     tEdge = 1.0 - tEdge;
-- 
2.43.0


From 58d043224ab249063c05c8c9b26a16aeaa9ea625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 046/137] fix: define cartesianVectorToBarycentric with its
 declared signature

---
 .../geometrycentral/surface/barycentric_coordinate_helpers.ipp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp b/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp
index 5e50235..9a4c926 100644
--- a/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp
+++ b/include/geometrycentral/surface/barycentric_coordinate_helpers.ipp
@@ -25,7 +25,7 @@ inline Vector2 barycentricDisplacementToCartesian(const std::array<Vector2, 3>&
   return vertCoords[0] * baryVec.x + vertCoords[1] * baryVec.y + vertCoords[2] * baryVec.z;
 }
 
-inline Vector3 cartesianVectorToBarycentric(const std::array<Vector2, 3>& vertCoords, Vector2 faceVec, bool verbose) {
+inline Vector3 cartesianVectorToBarycentric(const std::array<Vector2, 3>& vertCoords, Vector2 faceVec) {
 
 
   // Build matrix for linear transform problem
-- 
2.43.0


From e176c6bf5107c4f8d273c7e93e10922f96e4cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:50 +0000
Subject: [PATCH 047/137] fix: report the ending direction of traces which stop
 on an edge in the tangent space of that edge

---
 src/surface/trace_geodesic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 00fb6b8..540af14 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -304,7 +304,7 @@ inline TraceSubResult traceInFaceBarycentric(IntrinsicGeometryInterface& geom, F
     TraceSubResult result;
     result.terminated = true;
     result.endPoint = SurfacePoint(crossHe.edge(), convertTToEdge(crossHe, tCross));
-    result.incomingDirToPoint = remainingDirInHalfedge;
+    result.incomingDirToPoint = convertVecToEdge(crossHe, remainingDirInHalfedge);
     result.traceVectorInHalfedgeLen = lenRemaining;
 
     return result;
@@ -638,7 +638,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
 
       // Use the last trace as ending data
       result.endPoint = SurfacePoint(prevTraceEnd.crossHe, prevTraceEnd.tCross);
-      result.endingDir = prevTraceEnd.traceVectorInHalfedgeDir;
+      result.endingDir = convertVecToEdge(prevTraceEnd.crossHe, prevTraceEnd.traceVectorInHalfedgeDir);
       result.length -= prevTraceEnd.traceVectorInHalfedgeLen;
 
       if (traceOptions.includePath) {
-- 
2.43.0


From 8ed8107fdc9c1e2e31215bb02d6a96554eee1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 048/137] fix: a vertex point is adjacent to itself, like edge
 and face points

---
 src/surface/surface_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 1c98c4c..13f3acf 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -10,7 +10,7 @@ namespace { // helpers
 // Next 9 methods are all combinations of {Vertex,Edge,Face} adjacency
 
 bool checkAdjacent(Vertex vA, Vertex vB) {
-  bool adjacent = false;
+  bool adjacent = (vA == vB);
   for (Vertex vN : vA.adjacentVertices()) {
     if (vN == vB) adjacent = true;
   }
-- 
2.43.0


From 9ccfbf88629473b566eed97028ac6974f8623ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 049/137] fix: edges on the same boundary loop are not adjacent
 surface points

---
 src/surface/surface_point.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 13f3acf..2857af1 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -37,15 +37,14 @@ bool checkAdjacent(Vertex vA, Face fB) {
 bool checkAdjacent(Edge eA, Vertex vB) { return checkAdjacent(vB, eA); }
 
 bool checkAdjacent(Edge eA, Edge eB) {
-  bool adjacent = false;
-
-  // Must have a shared face
-  adjacent |= (eA.halfedge().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().face());
-  adjacent |= (eA.halfedge().face() == eB.halfedge().twin().face());
-  adjacent |= (eA.halfedge().twin().face() == eB.halfedge().twin().face());
+  // Must have a shared face (boundary loops and the like do not count)
+  for (Face fA : eA.adjacentFaces()) {
+    for (Edge eN : fA.adjacentEdges()) {
+      if (eN == eB) return true;
+    }
+  }
 
-  return adjacent;
+  return false;
 }
 
 bool checkAdjacent(Edge eA, Face fB) {
-- 
2.43.0


From 5704df6005d50db096ab09d1cd2c2c174e86d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 050/137] fix: surface points on edges of general surface
 meshes

On nonmanifold or inconsistently oriented meshes, and at boundary edges without a
twin, twin() of an edge's halfedge does not run from tip to tail: use the
orientation of halfedges instead. Also find edges at vertices without outgoing halfedge.
---
 .../geometrycentral/surface/surface_point.ipp   | 17 ++++++++---------
 src/surface/surface_point.cpp                   |  7 ++++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index c82a2aa..a7dbb6d 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -9,7 +9,7 @@ inline SurfacePoint::SurfacePoint() : type(SurfacePointType::Vertex) {}
 inline SurfacePoint::SurfacePoint(Vertex v) : type(SurfacePointType::Vertex), vertex(v) {}
 inline SurfacePoint::SurfacePoint(Edge e, double tEdge_) : type(SurfacePointType::Edge), edge(e), tEdge(tEdge_) {}
 inline SurfacePoint::SurfacePoint(Halfedge he, double tHalfedge)
-    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he == he.edge().halfedge() ? tHalfedge : (1. - tHalfedge)) {}
+    : type(SurfacePointType::Edge), edge(he.edge()), tEdge(he.orientation() ? tHalfedge : (1. - tHalfedge)) {}
 inline SurfacePoint::SurfacePoint(Face f, Vector3 faceCoords_)
     : type(SurfacePointType::Face), face(f), faceCoords(faceCoords_) {}
 
@@ -110,9 +110,11 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
 
   case SurfacePointType::Edge: {
 
-    double thisT = tEdge;
     for (Halfedge targetHe : edge.adjacentHalfedges()) {
 
+      // The point along this halfedge
+      double thisT = targetHe.orientation() ? tEdge : 1. - tEdge;
+
       int i = 0;
       for (Halfedge he : targetFace.adjacentHalfedges()) {
         if (he == targetHe) {
@@ -126,9 +128,6 @@ inline SurfacePoint SurfacePoint::inFace(Face targetFace) const {
         }
         i++;
       }
-
-      // Flip the point to be along the other halfedge
-      thisT = 1. - thisT;
     }
 
     break;
@@ -178,7 +177,7 @@ inline Vertex SurfacePoint::nearestVertex() const {
   }
   case SurfacePointType::Edge: {
     if (tEdge < .5) return edge.halfedge().vertex();
-    return edge.halfedge().twin().vertex();
+    return edge.halfedge().tipVertex();
     break;
   }
   case SurfacePointType::Face: {
@@ -207,7 +206,7 @@ inline T SurfacePoint::interpolate(const VertexData<T>& data) const {
   }
   case SurfacePointType::Edge: {
     T valTail = data[edge.halfedge().vertex()];
-    T valTip = data[edge.halfedge().twin().vertex()];
+    T valTip = data[edge.halfedge().tipVertex()];
     return (1. - tEdge) * valTail + tEdge * valTip;
     break;
   }
@@ -309,8 +308,8 @@ inline Edge sharedEdge(const SurfacePoint& pA, const SurfacePoint& pB) {
   case SurfacePointType::Vertex: {
     switch (pB.type) {
     case SurfacePointType::Vertex:
-      for (Halfedge he : pA.vertex.outgoingHalfedges()) {
-        if (he.tipVertex() == pB.vertex) return he.edge();
+      for (Edge e : pA.vertex.adjacentEdges()) {
+        if (e.otherVertex(pA.vertex) == pB.vertex) return e;
       }
       break;
     case SurfacePointType::Edge:
diff --git a/src/surface/surface_point.cpp b/src/surface/surface_point.cpp
index 2857af1..ce5f5d1 100644
--- a/src/surface/surface_point.cpp
+++ b/src/surface/surface_point.cpp
@@ -19,9 +19,10 @@ bool checkAdjacent(Vertex vA, Vertex vB) {
 
 bool checkAdjacent(Vertex vA, Edge eB) {
   bool adjacent = false;
-  for (Halfedge he : vA.outgoingHalfedges()) {
-    if (eB == he.next().edge()) adjacent = true;
-    if (eB == he.edge()) adjacent = true;
+  for (Face f : vA.adjacentFaces()) {
+    for (Edge e : f.adjacentEdges()) {
+      if (e == eB) adjacent = true;
+    }
   }
   return adjacent;
 }
-- 
2.43.0


From 781cab52d3a56314833217b9d41dcd6cdc0167d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 051/137] fix: SurfacePoint::validate() rejects barycentric
 coordinates which sum to less than one

---
 include/geometrycentral/surface/surface_point.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/geometrycentral/surface/surface_point.ipp b/include/geometrycentral/surface/surface_point.ipp
index a7dbb6d..e286e60 100644
--- a/include/geometrycentral/surface/surface_point.ipp
+++ b/include/geometrycentral/surface/surface_point.ipp
@@ -248,6 +248,9 @@ inline void SurfacePoint::validate() const {
     if ((faceCoords.x + faceCoords.y + faceCoords.z) > (1. + EPS))
       throw std::logic_error("surface point with Type::Face has bary coord that sum to > 1 " +
                              std::to_string(faceCoords));
+    if ((faceCoords.x + faceCoords.y + faceCoords.z) < (1. - EPS))
+      throw std::logic_error("surface point with Type::Face has bary coord that sum to < 1 " +
+                             std::to_string(faceCoords));
     break;
   }
   }
-- 
2.43.0


From b91ba67ed38d0de63e9aadb7e9c4dd4b9c24e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 052/137] fix: BarycentricVector::inFace() throws for edges
 which are not in the face

---
 include/geometrycentral/surface/barycentric_vector.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index cdbe8ad..7f19c82 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -117,9 +117,11 @@ inline BarycentricVector BarycentricVector::inFace(Face targetFace) const {
       return BarycentricVector(targetFace, faceCoords);
     }
     he = he.next();
-    Vector3 faceCoords =
-        he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
-    return BarycentricVector(targetFace, faceCoords);
+    if (edge == he.edge()) {
+      Vector3 faceCoords =
+          he.orientation() ? Vector3{edgeCoords[1], 0., edgeCoords[0]} : Vector3{edgeCoords[0], 0., edgeCoords[1]};
+      return BarycentricVector(targetFace, faceCoords);
+    }
     break;
   }
   case BarycentricVectorType::Vertex:
-- 
2.43.0


From ead2a37d51575cce84cdaff9666982040cd67192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 053/137] fix: BarycentricVector(Halfedge, Face) wrote out of
 bounds for halfedges not along the face

---
 include/geometrycentral/surface/barycentric_vector.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/surface/barycentric_vector.ipp b/include/geometrycentral/surface/barycentric_vector.ipp
index 7f19c82..4fc7a5b 100644
--- a/include/geometrycentral/surface/barycentric_vector.ipp
+++ b/include/geometrycentral/surface/barycentric_vector.ipp
@@ -50,11 +50,12 @@ inline BarycentricVector::BarycentricVector(Halfedge he_, Face f) : type(Barycen
   double sign = 0.;
   for (Halfedge he : f.adjacentHalfedges()) {
     if (he.edge() == he_.edge()) {
-      sign = (he.tailVertex() == he_.tailVertex() && he.tipVertex() == he_.tipVertex()) ? 1. : -1.;
+      sign = (he.orientation() == he_.orientation()) ? 1. : -1.;
       break;
     }
     eIdx++;
   }
+  if (sign == 0.) throw std::invalid_argument("Halfedge of a BarycentricVector must be along an edge of the face.");
   faceCoords = {0, 0, 0};
   faceCoords[(eIdx + 1) % 3] = 1;
   faceCoords[eIdx] = -1;
-- 
2.43.0


From 90cc9b534432b1e32c5a37fff3ea6f229b677695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 054/137] fix: traceGeodesic stops after maxIters faces, as
 documented

---
 src/surface/trace_geodesic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/trace_geodesic.cpp b/src/surface/trace_geodesic.cpp
index 540af14..4f38c26 100644
--- a/src/surface/trace_geodesic.cpp
+++ b/src/surface/trace_geodesic.cpp
@@ -630,7 +630,7 @@ void traceGeodesic_iterative(IntrinsicGeometryInterface& geom, TraceGeodesicResu
                              const TraceOptions& traceOptions) {
 
   // Now, points are always in faces. Trace until termination.
-  size_t iter = 0;
+  size_t iter = 1; // the step which got tracing started already crossed a face
   while (!prevTraceEnd.terminated) {
 
     // Terminate on iterations
-- 
2.43.0


From 2ffe60e7159eda3fbc790666ea81816f52397d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 055/137] fix: fast marching measures the distance from a
 source inside a face to the corners of the face correctly

---
 src/surface/fast_marching_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 417e782..85a7e8c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -170,9 +170,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double u = p.faceCoords[0];
         double v = p.faceCoords[1];
         double w = p.faceCoords[2];
-        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lAB2 * v * w; // squared distance from p to vA
+        double dist2_A = lAB2 * (v * (1. - u)) + lCA2 * (w * (1. - u)) - lBC2 * v * w; // squared distance from p to vA
         double dist2_B = lAB2 * (u * (1. - v)) + lBC2 * (w * (1. - v)) - lCA2 * u * w; // squared distance from p to vB
-        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lBC2 * u * v; // squared distance from p to vC
+        double dist2_C = lCA2 * (u * (1. - w)) + lBC2 * (v * (1. - w)) - lAB2 * u * v; // squared distance from p to vC
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-- 
2.43.0


From 110a75abc9160dcdd4e55ae88d5d002fdae99e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 056/137] fix: unsigned fast marching improves vertices next to
 a source inside an edge or face through other sources

---
 src/surface/fast_marching_method.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 85a7e8c..1fab13c 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -152,8 +152,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         double l = geometry.edgeLengths[p.edge];
         frontierPQ.push(std::make_pair(x.second + signs[vA] * p.tEdge * l, vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * (1. - p.tEdge) * l, vB));
-        isSource[vA] = true;
-        isSource[vB] = true;
+        // (unsigned distance at these vertices might still be improved by other sources)
+        isSource[vA] = sign;
+        isSource[vB] = sign;
         break;
       }
       case (SurfacePointType::Face): {
@@ -176,9 +177,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         frontierPQ.push(std::make_pair(x.second + signs[vA] * std::sqrt(dist2_A), vA));
         frontierPQ.push(std::make_pair(x.second + signs[vB] * std::sqrt(dist2_B), vB));
         frontierPQ.push(std::make_pair(x.second + signs[vC] * std::sqrt(dist2_C), vC));
-        isSource[vA] = true;
-        isSource[vB] = true;
-        isSource[vC] = true;
+        isSource[vA] = sign;
+        isSource[vB] = sign;
+        isSource[vC] = sign;
         break;
       }
       }
-- 
2.43.0


From 0be3a617cbb1f86e6e515b4a76891af5f75bcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 057/137] fix: fast marching takes the nearest update on the
 negative side of a signed distance

---
 src/surface/fast_marching_method.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 1fab13c..cb74f94 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -13,6 +13,9 @@ namespace {
 // TODO parameter c isn't actually defined in paper, so I guessed that it was an error
 double eikonalDistanceSubroutine(double a, double b, double theta, double dA, double dB, int sign) {
 
+  // Measure distances on the side of the source we are on
+  dA *= sign;
+  dB *= sign;
 
   if (theta <= PI / 2.0) {
     double u = dB - dA;
@@ -24,25 +27,24 @@ double eikonalDistanceSubroutine(double a, double b, double theta, double dA, do
     double quadB = 2 * b * u * (a * cTheta - b);
     double quadC = b * b * (u * u - a * a * sTheta2);
     double sqrtVal = std::sqrt(quadB * quadB - 4 * quadA * quadC);
-    double tVals[] = {(-quadB + sqrtVal) / (2 * quadA), (-quadB - sqrtVal) / (2 * quadA)};
-    double t = sign > 0 ? tVals[0] : tVals[1];
+    double t = (-quadB + sqrtVal) / (2 * quadA);
     double y = b * (t - u) / t;
-    if (u < sign * t && a * cTheta < y && y < a / cTheta) {
-      return dA + t;
+    if (u < t && a * cTheta < y && y < a / cTheta) {
+      return sign * (dA + t);
     } else {
-      return std::min(b * sign + dA, a * sign + dB);
+      return sign * std::min(b + dA, a + dB);
     }
 
   }
   // Custom by Nick to get acceptable results in obtuse triangles without fancy unfolding
   else {
-    double maxDist = std::max(sign * dA, sign * dB); // all points on base are less than this far away, by convexity
+    double maxDist = std::max(dA, dB); // all points on base are less than this far away, by convexity
     double c = std::sqrt(a * a + b * b - 2 * a * b * std::cos(theta));
     double area = 0.5 * std::sin(theta) * a * b;
     double altitude = 2 * area / c; // distance to base, must be inside triangle since obtuse
     double baseDist = maxDist + altitude;
 
-    return std::min({b * sign + dA, a * sign + dB, sign * baseDist});
+    return sign * std::min({b + dA, a + dB, baseDist});
   }
 }
 
-- 
2.43.0


From d8a2a1e2ca7daa596f3df4d8de25dc0698f0a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 058/137] fix: fast marching spreads the negative side around
 the whole fan of a curve vertex, also at the boundary

---
 src/surface/fast_marching_method.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index cb74f94..28c7ab8 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -125,15 +125,18 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
       for (size_t i = 0; i < nNodes; i++) {
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
-        Halfedge startHe = p.vertex.halfedge();
-        Halfedge currHe = startHe;
-        while (true) {
-          if (signs[currHe.tipVertex()] != 0 && signs[currHe.tipVertex()] != signs[p.vertex] &&
-              signs[currHe.next().tipVertex()] == 0) {
-            signs[currHe.next().tipVertex()] = -1;
+        bool changed = true;
+        while (changed) {
+          changed = false;
+          for (Halfedge he : p.vertex.outgoingHalfedges()) {
+            if (!he.isInterior()) continue;
+            int tipSign = signs[he.tipVertex()];
+            Vertex vNext = he.next().tipVertex();
+            if (tipSign != 0 && tipSign != signs[p.vertex] && signs[vNext] == 0) {
+              signs[vNext] = -1;
+              changed = true;
+            }
           }
-          currHe = currHe.next().next().twin();
-          if (currHe == startHe) break;
         }
       }
     }
-- 
2.43.0


From b3dcd423f7342792e29904131dcad14cabdd7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 059/137] fix: signed fast marching orients curve segments
 which start inside an edge, and accepts empty curves

---
 src/surface/fast_marching_method.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 28c7ab8..67cd32f 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -86,7 +86,7 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
     for (Vertex v : mesh.vertices()) signs[v] = 0;
     for (auto& curve : initialDistances) {
       size_t nNodes = curve.size();
-      for (size_t i = 0; i < nNodes - 1; i++) {
+      for (size_t i = 0; i + 1 < nNodes; i++) {
         const SurfacePoint& pA = curve[i].first;
         const SurfacePoint& pB = curve[i + 1].first;
         Edge commonEdge = sharedEdge(pA, pB);
@@ -94,7 +94,8 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           // Assign +/- signs to the "third" vertices of each face straddling this edge.
           // These vertices might themselves lie on the curve, in which case we overwrite them below.
           Halfedge he = commonEdge.halfedge();
-          signs[he.next().tipVertex()] = (he.vertex() == pA.vertex) ? -1 : 1;
+          bool forward = pA.inEdge(commonEdge).tEdge < pB.inEdge(commonEdge).tEdge;
+          signs[he.next().tipVertex()] = forward ? -1 : 1;
           if (!commonEdge.isBoundary()) signs[he.twin().next().tipVertex()] = -signs[he.next().tipVertex()];
         } else {
           Face commonFace = sharedFace(pA, pB);
-- 
2.43.0


From efe74898abe96f56e62a716282154745cec33102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 060/137] fix: fast marching does not update triangles from
 sources which have no distance yet

---
 src/surface/fast_marching_method.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 67cd32f..140f024 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -227,6 +227,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         continue;
       }
 
+      // A source which has not been reached yet; the triangles are updated once it is
+      if (std::isinf(distances[neighVert])) continue;
+
       // Check the third point of the "left" triangle straddling this edge
       if (he.isInterior()) {
         Vertex newVert = he.next().next().vertex();
-- 
2.43.0


From 9518195b73145194c5d60df5e810ce132a5b5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 061/137] fix: fast marching fills the negative side of the fan
 of a boundary curve vertex in both directions

---
 src/surface/fast_marching_method.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index 140f024..e7bb345 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -137,6 +137,10 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
               signs[vNext] = -1;
               changed = true;
             }
+            if (signs[vNext] != 0 && signs[vNext] != signs[p.vertex] && tipSign == 0) {
+              signs[he.tipVertex()] = -1;
+              changed = true;
+            }
           }
         }
       }
-- 
2.43.0


From 1003f0bfb9a46ff8411d1cb07282046019821d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:00 +0000
Subject: [PATCH 062/137] fix: signed fast marching follows the sides of the
 curve through fans whose middle vertices touch the curve elsewhere

---
 src/surface/fast_marching_method.cpp | 30 ++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/surface/fast_marching_method.cpp b/src/surface/fast_marching_method.cpp
index e7bb345..afae31d 100644
--- a/src/surface/fast_marching_method.cpp
+++ b/src/surface/fast_marching_method.cpp
@@ -84,6 +84,9 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
   // Initialize signs
   if (sign) {
     for (Vertex v : mesh.vertices()) signs[v] = 0;
+    FaceData<int> faceSigns(mesh, 0);          // which side of the curve a face next to it is on
+    FaceData<char> faceIsCrossed(mesh, false); // a segment passes through the face
+    EdgeData<char> edgeIsOnCurve(mesh, false);
     for (auto& curve : initialDistances) {
       size_t nNodes = curve.size();
       for (size_t i = 0; i + 1 < nNodes; i++) {
@@ -97,11 +100,15 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
           bool forward = pA.inEdge(commonEdge).tEdge < pB.inEdge(commonEdge).tEdge;
           signs[he.next().tipVertex()] = forward ? -1 : 1;
           if (!commonEdge.isBoundary()) signs[he.twin().next().tipVertex()] = -signs[he.next().tipVertex()];
+          edgeIsOnCurve[commonEdge] = true;
+          faceSigns[he.face()] = forward ? -1 : 1;
+          if (!commonEdge.isBoundary()) faceSigns[he.twin().face()] = -faceSigns[he.face()];
         } else {
           Face commonFace = sharedFace(pA, pB);
           if (commonFace == Face()) {
             throw std::logic_error("For signed fast marching distance, each curve segment must share a common face.");
           }
+          faceIsCrossed[commonFace] = true;
           BarycentricVector tangent(pA, pB);
           BarycentricVector normal = -tangent.rotate90(geometry);
           for (Vertex v : commonFace.adjacentVertices()) {
@@ -127,6 +134,29 @@ VertexData<double> FMMDistance(IntrinsicGeometryInterface& geometry,
         const SurfacePoint& p = curve[i].first;
         if (p.type != SurfacePointType::Vertex) continue;
         bool changed = true;
+        while (changed) {
+          changed = false;
+          for (Halfedge he : p.vertex.outgoingHalfedges()) {
+            if (he.edge().isBoundary() || edgeIsOnCurve[he.edge()]) continue;
+            Face fA = he.face();
+            Face fB = he.twin().face();
+            if (faceIsCrossed[fA] || faceIsCrossed[fB]) continue;
+            if (faceSigns[fA] == 0 && faceSigns[fB] != 0) {
+              faceSigns[fA] = faceSigns[fB];
+              changed = true;
+            } else if (faceSigns[fB] == 0 && faceSigns[fA] != 0) {
+              faceSigns[fB] = faceSigns[fA];
+              changed = true;
+            }
+          }
+        }
+        for (Face f : p.vertex.adjacentFaces()) {
+          if (faceSigns[f] == 0) continue;
+          for (Vertex v : f.adjacentVertices()) {
+            if (signs[v] == 0) signs[v] = faceSigns[f];
+          }
+        }
+        changed = true;
         while (changed) {
           changed = false;
           for (Halfedge he : p.vertex.outgoingHalfedges()) {
-- 
2.43.0


From 7c5d6d3455a11b327481b330a3f37325345eeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 063/137] fix: gradient and logarithm of exact geodesic
 distance at a vertex live in its rescaled tangent space

---
 src/surface/exact_geodesic_helpers.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesic_helpers.cpp b/src/surface/exact_geodesic_helpers.cpp
index 773fc56..d5da8f5 100644
--- a/src/surface/exact_geodesic_helpers.cpp
+++ b/src/surface/exact_geodesic_helpers.cpp
@@ -398,6 +398,9 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
 
   geom.requireHalfedgeVectorsInFace();
   geom.requireHalfedgeVectorsInVertex();
+  geom.requireEdgeLengths();
+  geom.requireCornerAngles();
+  geom.requireCornerScaledAngles();
   // Transform to coordinate system at point
   switch (p.type) {
   case SurfacePointType::Vertex: {
@@ -413,9 +416,20 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
 
     // Transform from face to halfedge
     vTransformed /= geom.halfedgeVectorsInFace[heShared];
+    vTransformed *= geom.edgeLengths[heShared.edge()];
+
+    // The tangent space at the vertex is rescaled, so rescale the angle within the corner accordingly. Either the vector
+    // or its opposite points into the corner.
+    double cornerAngle = geom.cornerAngles[heShared.corner()];
+    double angleScale = geom.cornerScaledAngles[heShared.corner()] / cornerAngle;
+    Vector2 fromBisector = vTransformed / Vector2::fromAngle(cornerAngle / 2.);
+    bool outward = fromBisector.x < 0;
+    double angle = (outward ? -fromBisector : fromBisector).arg() + cornerAngle / 2.;
+    vTransformed = Vector2::fromAngle(angle * angleScale) * norm(vTransformed);
+    if (outward) vTransformed = -vTransformed;
 
     // Transform from halfedge to vertex
-    vTransformed *= geom.halfedgeVectorsInVertex[heShared];
+    vTransformed *= unit(geom.halfedgeVectorsInVertex[heShared]);
     break;
   }
   case SurfacePointType::Edge: {
@@ -444,6 +458,9 @@ Vector2 transformToCoordinateSystem(IntrinsicGeometryInterface& geom, Vector2 v,
     // do nothing; already using face coordinate system
     break;
   }
+  geom.unrequireCornerScaledAngles();
+  geom.unrequireCornerAngles();
+  geom.unrequireEdgeLengths();
   geom.unrequireHalfedgeVectorsInVertex();
   geom.unrequireHalfedgeVectorsInFace();
 
-- 
2.43.0


From db148bffb08454c722df44551087e648f246a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 064/137] fix: exact geodesics accept pseudo-sources (almost)
 in line with an edge, as on regular grids

---
 src/surface/exact_geodesics.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index e34237e..2b4b42b 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -655,6 +655,7 @@ void GeodesicAlgorithmExact::update_list_and_queue(list_pointer list,
                                                    IntervalWithStop* candidates, // up to two candidates
                                                    unsigned num_candidates) {
   assert(num_candidates <= 2);
+  if (num_candidates == 0) return;
   // assert(list->first() != nullptr);
   Edge edge = list->edge();
   double edge_length = geom.edgeLengths[edge];
@@ -999,6 +1000,12 @@ void GeodesicAlgorithmExact::construct_propagated_intervals(bool invert, Halfedg
     second->stop() = edge_length;
   }
 
+  // an interval seen edge-on may have been rounded to nothing
+  if (num_candidates == 1 &&
+      (first->start() >= first->stop() || edge_length - first->stop() >= edge_length - first->start())) {
+    num_candidates = 0;
+    return;
+  }
 
   // invert intervals if necessary; fill missing data and set pointers
   // correctly
-- 
2.43.0


From 53869de5aa7611a8270278558608b77cde7d4ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 065/137] fix: exact geodesic paths to a source inside an edge
 do not end with a leg of no length, which ruined getLog

---
 src/surface/exact_geodesics.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 2b4b42b..9e6cdd3 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1321,7 +1321,11 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
   }
 
   SurfacePoint source = static_cast<SurfacePoint>(m_sources[source_index]);
-  if (exactgeodesic::compute_surface_distance(geom, path.back(), source) > 0) {
+  double distanceToSource = exactgeodesic::compute_surface_distance(geom, path.back(), source);
+  if (path.size() > 1 && path.back().type == SurfacePointType::Edge &&
+      distanceToSource < SMALLEST_INTERVAL_RATIO * geom.edgeLengths[path.back().edge]) {
+    path.back() = source; // the path hit the source; don't append a leg of (almost) no length
+  } else if (distanceToSource > 0) {
     path.push_back(source);
   }
 
-- 
2.43.0


From c4c71856d3fda040e6d7cc6dd39ac55dd38480ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 066/137] fix: exact geodesics leave a nonmanifold vertex only
 through intervals which reach the vertex

---
 src/surface/exact_geodesics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 9e6cdd3..b69bd22 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -505,10 +505,11 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       }
     };
 
-    if (!vertexIsManifold[he.tailVertex()]) {
+    // (only if the interval reaches the vertex)
+    if (first_interval && !vertexIsManifold[he.tailVertex()]) {
       propagateNonmanifoldVertex(he.tailVertex(), true);
     }
-    if (!vertexIsManifold[he.tipVertex()]) {
+    if (last_interval && !vertexIsManifold[he.tipVertex()]) {
       propagateNonmanifoldVertex(he.tipVertex(), false);
     }
 
-- 
2.43.0


From aab66999d5d0cc4e61b969606d935eaa7765f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 067/137] fix: exact geodesics on general meshes see all edges
 of a vertex, not only those with an outgoing halfedge

---
 src/surface/exact_geodesics.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index b69bd22..470a575 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -151,12 +151,11 @@ long GeodesicAlgorithmExact::visible_from_source(const SurfacePoint& point) cons
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       double edgeLength = geom.edgeLengths[e];
-      double position = he.orientation() ? 0.0 : edgeLength;
+      double position = (e.halfedge().tailVertex() == v) ? 0.0 : edgeLength;
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval && interval->visible_from_source()) {
@@ -485,23 +484,23 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
       double dy = min_interval->pseudo_y();
       double source_d = min_interval->d() + sqrt(dx * dx + dy * dy);
 
-      for (Halfedge heSpoke : v.outgoingHalfedges()) {
-        double L = geom.edgeLengths[heSpoke.edge()];
+      for (Edge spoke : v.adjacentEdges()) {
+        double L = geom.edgeLengths[spoke];
         candidate.start() = 0;
         candidate.stop() = L;
         candidate.d() = source_d;
-        candidate.pseudo_x() = heSpoke.orientation() ? 0 : L;
+        candidate.pseudo_x() = (spoke.halfedge().tailVertex() == v) ? 0 : L;
         candidate.pseudo_y() = 0;
 
         candidate.next() = nullptr;
-        candidate.edge() = heSpoke.edge();
-        candidate.halfedge() = heSpoke;
+        candidate.edge() = spoke;
+        candidate.halfedge() = Halfedge(); // propagate into all faces of the spoke
         candidate.edge_length() = L;
         candidate.source_index() = min_interval->source_index();
         candidate.direction() = Interval::DirectionType::FROM_HALFEDGE;
         candidate.min() = candidate.d();
 
-        update_list_and_queue(interval_list(heSpoke.edge()), &candidate, 1);
+        update_list_and_queue(interval_list(spoke), &candidate, 1);
       }
     };
 
@@ -1188,12 +1187,11 @@ const_interval_pointer GeodesicAlgorithmExact::best_first_interval(const Surface
   switch (point.type) {
   case SurfacePointType::Vertex: {
     Vertex v = point.vertex;
-    for (Halfedge he : v.outgoingHalfedges()) {
-      Edge e = he.edge();
+    for (Edge e : v.adjacentEdges()) {
       const_list_pointer list = interval_list(e);
 
       // double position = e->v0()->id() == v->id() ? 0.0 : e->length();
-      double position = he.orientation() ? 0.0 : geom.edgeLengths[e];
+      double position = (e.halfedge().tailVertex() == v) ? 0.0 : geom.edgeLengths[e];
 
       const_interval_pointer interval = list->covering_interval(position);
       if (interval) {
-- 
2.43.0


From fd57d8ebbcb2cd12d62272cde1c5cac07f5d4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 068/137] fix: an exact geodesic path ends at the source its
 last point sees

---
 src/surface/exact_geodesics.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 470a575..72879d9 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -1289,7 +1289,8 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
 
     // while this point is not in the direct visibility of some
     // source (if we are inside the FACE, we obviously hit the source)
-    while (visible_from_source(path.back()) < 0) {
+    long visible_source;
+    while ((visible_source = visible_from_source(path.back())) < 0) {
       SurfacePoint& q = path.back();
 
       possible_traceback_edges(q, possible_edges);
@@ -1317,6 +1318,7 @@ std::vector<SurfacePoint> GeodesicAlgorithmExact::traceBack(const SurfacePoint&
         path.push_back(SurfacePoint(edge, normalized_position));
       }
     }
+    source_index = (unsigned)visible_source;
   }
 
   SurfacePoint source = static_cast<SurfacePoint>(m_sources[source_index]);
-- 
2.43.0


From 414da0b52045f33a23c3a2bd902ba07f08c5028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 069/137] fix: exact geodesics turn around flat vertices, so
 that edges behind them in line with the source get distances

---
 src/surface/exact_geodesics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/exact_geodesics.cpp b/src/surface/exact_geodesics.cpp
index 72879d9..08b5e04 100644
--- a/src/surface/exact_geodesics.cpp
+++ b/src/surface/exact_geodesics.cpp
@@ -469,7 +469,8 @@ void GeodesicAlgorithmExact::propagate(const std::vector<SurfacePoint>& sources,
 
     auto saddleOrBoundary = [&](Vertex v) -> bool {
       geom.requireVertexGaussianCurvatures();
-      bool saddle = geom.vertexGaussianCurvatures[v] < 0;
+      // geodesics along an edge may pass through a flat vertex, too
+      bool saddle = geom.vertexGaussianCurvatures[v] < 1e-5;
       geom.unrequireVertexGaussianCurvatures();
       return saddle || vertexIsBoundary[v];
     };
-- 
2.43.0


From 07736e37766bf2fc1032d6245ccf4dc844d56b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 070/137] fix: flipToDelaunay skips boundary edges instead of
 throwing

---
 src/surface/simple_idt.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 8580d28..9b22036 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -118,8 +118,7 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
 
   auto flipEdgeIfNotDelaunay = [&](Edge e) {
     // Can't flip
-    //if (e.isBoundary()) return false;
-    if (e.isBoundary()) throw std::runtime_error("boundary");
+    if (e.isBoundary()) return false;
     if (!e.isManifold()) throw std::runtime_error("nonmanifold");
 
     // Don't want to flip
-- 
2.43.0


From 542c5ae2193736b8c28e2562fa999ff80503af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 071/137] fix: adaptive affine log map reads the parallel
 section by vertex

---
 src/surface/vector_heat_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 081ecbb..54591e9 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -411,7 +411,7 @@ VertexData<Vector2> VectorHeatMethodSolver::computeLogMap_AffineAdaptive(const V
     // Do the translation using the values at i
     // (we could equivalently do it at j)
     Vector2 eij = geom.halfedgeVectorsInVertex[he];
-    Vector2 Xi = parallel_section[iTail];
+    Vector2 Xi = parallel_section[he.vertex()];
     Vector2 t = -eij / Xi;
 
     // The developing connection
-- 
2.43.0


From 2e2e5b47eb46d12afdbc6f38e8ba1193eec80e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 072/137] fix: shift the singular Laplacian before the Cholesky
 factorization in the vector, signed and polygon heat solvers

---
 src/surface/polygon_mesh_heat_solver.cpp | 5 ++++-
 src/surface/signed_heat_method.cpp       | 5 ++++-
 src/surface/vector_heat_method.cpp       | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index a645b12..9d46873 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -48,7 +48,10 @@ void PolygonMeshHeatSolver::ensureHaveVectorHeatSolver() {
 void PolygonMeshHeatSolver::ensureHavePoissonSolver() {
   if (poissonSolver != nullptr) return;
 
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(laplaceMat));
+  // The Laplacian has the constants in its kernel; shift it slightly, since a Cholesky factorization of the singular
+  // matrix may fail
+  SparseMatrix<double> Ls = laplaceMat + 1e-6 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 }
 
 VertexData<double> PolygonMeshHeatSolver::computeDistance(const Vertex& sourceVert) {
diff --git a/src/surface/signed_heat_method.cpp b/src/surface/signed_heat_method.cpp
index 4673618..3eaf6aa 100644
--- a/src/surface/signed_heat_method.cpp
+++ b/src/surface/signed_heat_method.cpp
@@ -792,7 +792,10 @@ void SignedHeatSolver::ensureHavePoissonSolver() {
   geom.requireCotanLaplacian();
 
   SparseMatrix<double>& L = geom.cotanLaplacian;
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // The Laplacian has the constants in its kernel; shift it slightly, since a Cholesky factorization of the singular
+  // matrix may fail
+  SparseMatrix<double> Ls = L + 1e-6 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
diff --git a/src/surface/vector_heat_method.cpp b/src/surface/vector_heat_method.cpp
index 54591e9..a3e2c0a 100644
--- a/src/surface/vector_heat_method.cpp
+++ b/src/surface/vector_heat_method.cpp
@@ -151,8 +151,10 @@ void VectorHeatMethodSolver::ensureHavePoissonSolver() {
   geom.requireCotanLaplacian();
   SparseMatrix<double>& L = geom.cotanLaplacian;
 
-  // Build the operator
-  poissonSolver.reset(new PositiveDefiniteSolver<double>(L));
+  // The Laplacian has the constants in its kernel; shift it slightly, since a Cholesky factorization of the singular
+  // matrix may fail
+  SparseMatrix<double> Ls = L + 1e-6 * identityMatrix<double>(mesh.nVertices());
+  poissonSolver.reset(new PositiveDefiniteSolver<double>(Ls));
 
   geom.unrequireCotanLaplacian();
 }
-- 
2.43.0


From 2f1c0e6fc91d999f2ecadba88e02b2c4188760fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 073/137] fix: polygon heat solver leaves vanishing gradients
 at zero instead of dividing by zero

---
 src/surface/polygon_mesh_heat_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 9d46873..6bd6b1e 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -82,7 +82,7 @@ VertexData<double> PolygonMeshHeatSolver::computeDistance(const std::vector<Vert
   Vector<double> Y = geom.polygonGradientMatrix * X; // 3|F|
   for (size_t i = 0; i < F; i++) {
     Vector3 g = {Y[3 * i], Y[3 * i + 1], Y[3 * i + 2]};
-    g /= g.norm();
+    g = g.normalizeCutoff(); // the gradient can vanish, e.g. in a face whose corners are all equally far
     for (int j = 0; j < 3; j++) Y[3 * i + j] = g[j];
   }
 
@@ -203,7 +203,7 @@ VertexData<double> PolygonMeshHeatSolver::computeSignedDistance(const std::vecto
       Yf += std::real(Xt[vIdx]) * geom.vertexTangentBasis[v][0];
       Yf += std::imag(Xt[vIdx]) * geom.vertexTangentBasis[v][1];
     }
-    Yf /= Yf.norm();
+    Yf = Yf.normalizeCutoff();
     size_t fIdx = geom.faceIndices[f];
     for (int j = 0; j < 3; j++) {
       Y[3 * fIdx + j] = Yf[j];
-- 
2.43.0


From cb780f075e2800eb58ed460b12b585e2184b6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 074/137] fix: polygon heat solver addresses vertices by their
 dense indices

---
 src/surface/polygon_mesh_heat_solver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/surface/polygon_mesh_heat_solver.cpp b/src/surface/polygon_mesh_heat_solver.cpp
index 6bd6b1e..90606f6 100644
--- a/src/surface/polygon_mesh_heat_solver.cpp
+++ b/src/surface/polygon_mesh_heat_solver.cpp
@@ -105,16 +105,18 @@ VertexData<double> PolygonMeshHeatSolver::extendScalars(const std::vector<std::t
   GC_SAFETY_ASSERT(sources.size() != 0, "must have at least one source");
 
   ensureHaveScalarHeatSolver();
+  geom.requireVertexIndices();
 
   size_t V = mesh.nVertices();
   Vector<double> rhsVals = Vector<double>::Zero(V);
   Vector<double> rhsOnes = Vector<double>::Zero(V);
   for (size_t i = 0; i < sources.size(); i++) {
-    size_t ind = std::get<0>(sources[i]).getIndex();
+    size_t ind = geom.vertexIndices[std::get<0>(sources[i])];
     double val = std::get<1>(sources[i]);
     rhsVals[ind] = val;
     rhsOnes[ind] = 1.;
   }
+  geom.unrequireVertexIndices();
 
   Vector<double> interpVals = scalarHeatSolver->solve(rhsVals);
   Vector<double> interpOnes = scalarHeatSolver->solve(rhsOnes);
@@ -156,7 +158,6 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
       normsAllSame = false;
     }
   }
-  geom.unrequireVertexIndices();
 
   // Transport
   Vector<std::complex<double>> vecSolution = vectorHeatSolver->solve(dirRHS);
@@ -165,14 +166,15 @@ PolygonMeshHeatSolver::transportTangentVectors(const std::vector<std::tuple<Vert
   VertexData<Vector2> solution(mesh);
   if (normsAllSame) {
     vecSolution = (vecSolution.array() / vecSolution.array().abs()) * firstNorm;
-    for (size_t i = 0; i < V; i++) solution[i] = Vector2::fromComplex(vecSolution[i]);
+    for (Vertex v : mesh.vertices()) solution[v] = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]);
   } else {
     VertexData<double> interpMags = extendScalars(magnitudeSources);
-    for (size_t i = 0; i < V; i++) {
-      Vector2 dir = Vector2::fromComplex(vecSolution[i]).normalize();
-      solution[i] = dir * interpMags[i];
+    for (Vertex v : mesh.vertices()) {
+      Vector2 dir = Vector2::fromComplex(vecSolution[geom.vertexIndices[v]]).normalize();
+      solution[v] = dir * interpMags[v];
     }
   }
+  geom.unrequireVertexIndices();
 
   return solution;
 }
-- 
2.43.0


From ded51db45ff5ca01d346d916f49071f0ffd98a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 075/137] fix: OBJ reader handles faces without texture
 indices, relative indices, continued lines and mixed faces

---
 src/surface/simple_polygon_mesh.cpp | 60 +++++++++++++++++++----------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 111b7eb..6a78ba5 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -77,17 +77,22 @@ public:
   long long int normal = -1;
 };
 
-Index parseFaceIndex(const std::string& token) {
+// Parse a face corner like "v", "v/vt", "v//vn", or "v/vt/vn". nV, nVt, nVn are the number of entries which have been read
+// so far, used to resolve relative (negative) indices. Indices which are not given are -1.
+Index parseFaceIndex(const std::string& token, size_t nV, size_t nVt, size_t nVn) {
   std::stringstream in(token);
   std::string indexString;
-  int indices[3] = {1, 1, 1};
+  long long int indices[3] = {0, 0, 0};
+  const long long int counts[3] = {(long long int)nV, (long long int)nVt, (long long int)nVn};
 
-  int i = 0;
-  while (std::getline(in, indexString, '/')) {
-    if (indexString != "\\") {
-      std::stringstream ss(indexString);
-      ss >> indices[i++];
-    }
+  for (int i = 0; i < 3 && std::getline(in, indexString, '/'); i++) {
+    std::stringstream ss(indexString);
+    ss >> indices[i];
+  }
+
+  for (int i = 0; i < 3; i++) {
+    // negative indices count back from the most recent entry
+    if (indices[i] < 0) indices[i] += counts[i] + 1;
   }
 
   // decrement since indices in OBJ files are 1-based
@@ -171,9 +176,27 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
   std::vector<Vector2> coords;
   std::vector<std::vector<size_t>> polygonCoordInds;
 
+  bool anyCoordInds = false;
+  size_t nNormals = 0;
+
+  // reads one logical line, joining lines which are continued with a trailing backslash
+  auto getLogicalLine = [&](std::string& line) {
+    line.clear();
+    std::string part;
+    while (getline(in, part)) {
+      size_t last = part.find_last_not_of("\t\v\f\r ");
+      if (last == std::string::npos || part[last] != '\\') {
+        line += part;
+        return true;
+      }
+      line += part.substr(0, last) + " ";
+    }
+    return !line.empty();
+  };
+
   // parse obj format
   std::string line;
-  while (getline(in, line)) {
+  while (getLogicalLine(line)) {
     std::stringstream ss(line);
     std::string token;
 
@@ -186,41 +209,36 @@ void SimplePolygonMesh::readMeshFromObjFile(std::istream& in) {
       vertexCoordinates.push_back(position);
 
     } else if (token == "vt") {
-      double u, v;
+      double u = 0., v = 0.;
       ss >> u >> v;
 
       coords.push_back(Vector2{u, v});
 
     } else if (token == "vn") {
-      // Do nothing
+      // Only count them
+      nNormals++;
 
     } else if (token == "f") {
       std::vector<size_t> face;
       std::vector<size_t> faceCoordInds;
       while (ss >> token) {
-        Index index = parseFaceIndex(token);
-        if (index.position < 0) {
-          getline(in, line);
-          size_t i = line.find_first_not_of("\t\n\v\f\r ");
-          index = parseFaceIndex(line.substr(i));
-        }
+        Index index = parseFaceIndex(token, vertexCoordinates.size(), coords.size(), nNormals);
 
         face.push_back(index.position);
 
         if (index.uv != -1) {
           faceCoordInds.push_back(index.uv);
+          anyCoordInds = true;
         }
       }
 
       polygons.push_back(face);
-      if (!faceCoordInds.empty()) {
-        polygonCoordInds.push_back(faceCoordInds);
-      }
+      polygonCoordInds.push_back(faceCoordInds);
     }
   }
 
   // If we got uv coords, unpack them in to per-corner values
-  if (!polygonCoordInds.empty()) {
+  if (anyCoordInds) {
     for (std::vector<size_t>& faceCoordInd : polygonCoordInds) {
       paramCoordinates.emplace_back();
       std::vector<Vector2>& faceCoord = paramCoordinates.back();
-- 
2.43.0


From e06e5de13c560be21856153ae966e492b9e462af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 076/137] fix: OBJ writer keeps texture indices aligned when
 some faces have no coordinates

---
 src/surface/simple_polygon_mesh.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 6a78ba5..3f97760 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -942,16 +942,19 @@ void SimplePolygonMesh::writeMeshObj(std::ostream& out) {
 
   // Write faces
   size_t iC = 0;
-  for (std::vector<size_t>& face : polygons) {
+  for (size_t iF = 0; iF < polygons.size(); iF++) {
+    const std::vector<size_t>& face = polygons[iF];
+    // some faces may have no texture coordinates
+    size_t nCoords = iF < paramCoordinates.size() ? paramCoordinates[iF].size() : 0;
     out << "f";
-    for (size_t ind : face) {
-      out << " " << (ind + 1);
+    for (size_t j = 0; j < face.size(); j++) {
+      out << " " << (face[j] + 1);
 
-      if (!paramCoordinates.empty()) {
-        out << "/" << (iC + 1);
-        iC++;
+      if (nCoords == face.size()) {
+        out << "/" << (iC + j + 1);
       }
     }
+    iC += nCoords;
     out << std::endl;
   }
 }
-- 
2.43.0


From 9e8262f830671bef404c50fe6cb55241c4f422b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 077/137] fix: SimplePolygonMesh::triangulate keeps texture
 coordinates in correspondence

---
 src/surface/simple_polygon_mesh.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 3f97760..fab6161 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -652,8 +652,10 @@ void SimplePolygonMesh::stripDuplicateFaces() {
 
 void SimplePolygonMesh::triangulate() {
   std::vector<std::vector<size_t>> newPolygons;
+  std::vector<std::vector<Vector2>> newParamCoordinates;
 
-  for (auto poly : polygons) {
+  for (size_t iF = 0; iF < nFaces(); iF++) {
+    const std::vector<size_t>& poly = polygons[iF];
     if (poly.size() <= 2) {
       throw std::runtime_error("ERROR: SimplePolygonMesh has degree < 3 polygon");
     }
@@ -661,10 +663,17 @@ void SimplePolygonMesh::triangulate() {
     for (size_t i = 2; i < poly.size(); i++) {
       std::vector<size_t> tri = {poly[0], poly[i - 1], poly[i]};
       newPolygons.push_back(tri);
+
+      if (hasParameterization()) {
+        const std::vector<Vector2>& coords = paramCoordinates[iF];
+        newParamCoordinates.emplace_back();
+        if (coords.size() == poly.size()) newParamCoordinates.back() = {coords[0], coords[i - 1], coords[i]};
+      }
     }
   }
 
   polygons = newPolygons;
+  paramCoordinates = newParamCoordinates;
 }
 
 void SimplePolygonMesh::consistentlyOrientFaces(bool outwardOrient) {
-- 
2.43.0


From ac8942dc999e63bd6056bb63620e0f03af120c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 078/137] fix: STL reader rejects truncated files and facets
 with too few vertices

---
 src/surface/simple_polygon_mesh.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index fab6161..0741d94 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -316,6 +316,10 @@ void SimplePolygonMesh::readMeshFromAsciiStlFile(std::istream& in) {
     nextLine();
     assertToken("endfacet");
 
+    if (face.size() < 3) {
+      throw std::runtime_error("Failed to parse ASCII stl file: facet with less than three vertices");
+    }
+
     // Orient face using normal
     Vector3 faceNormal = cross(vertexCoordinates[face[1]] - vertexCoordinates[face[0]],
                                vertexCoordinates[face[2]] - vertexCoordinates[face[0]]);
@@ -341,6 +345,7 @@ void SimplePolygonMesh::readMeshFromBinaryStlFile(std::istream& in) {
   char nTriangleChars[4];
   in.read(header, 80);
   in.read(nTriangleChars, 4);
+  if (!in) throw std::runtime_error("Failed to parse binary stl file: incomplete header");
   unsigned int* intPtr = (unsigned int*)nTriangleChars;
   size_t nTriangles = *intPtr;
 
@@ -351,6 +356,7 @@ void SimplePolygonMesh::readMeshFromBinaryStlFile(std::istream& in) {
       vertexCoordinates.push_back(parseVector3(in));
       face.push_back(vertexCoordinates.size() - 1);
     }
+    if (!in) throw std::runtime_error("Failed to parse binary stl file: fewer triangles than announced");
 
     // Orient face using normal
     Vector3 faceNormal = cross(vertexCoordinates[face[1]] - vertexCoordinates[face[0]],
@@ -377,6 +383,7 @@ void SimplePolygonMesh::readMeshFromStlFile(std::istream& in) {
   in.read(buffer.data(), 5);
   // Conver to lower case for string comparison
   std::transform(begin(buffer), end(buffer), begin(buffer), [](char c) -> char { return std::tolower(c); });
+  if (!in) throw std::runtime_error("Failed to parse stl file: too short");
   // In both cases, go ahead and rewind the file
   // to the beginning.  We will handle the STL
   // header in each of the specialized read functions.
-- 
2.43.0


From 0d019b7b4d9b19e7084c6a60dcb5637a3d8b9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 079/137] fix: OFF reader handles DOS line endings and rejects
 malformed lines

---
 src/surface/simple_polygon_mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/surface/simple_polygon_mesh.cpp b/src/surface/simple_polygon_mesh.cpp
index 0741d94..3b425f8 100644
--- a/src/surface/simple_polygon_mesh.cpp
+++ b/src/surface/simple_polygon_mesh.cpp
@@ -405,6 +405,7 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
       if (!std::getline(in, line)) {
         throw std::runtime_error("ran out of lines while parsing off file");
       }
+      if (!line.empty() && line.back() == '\r') line.pop_back(); // DOS line endings
     } while (line.size() == 0 || line[0] == '#');
     return line;
   };
@@ -418,6 +419,7 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
   std::string countLine = getNextLine();
   std::stringstream countStream(countLine);
   countStream >> nVert >> nFace; // ignore nEdges, if present
+  if (!countStream) throw std::runtime_error("could not parse element counts in off file");
 
   // parse vertices
   vertexCoordinates.resize(nVert);
@@ -426,6 +428,7 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
     std::stringstream vertStream(vertLine);
     Vector3 p;
     vertStream >> p.x >> p.y >> p.z; // ignore color etc, if present
+    if (!vertStream) throw std::runtime_error("could not parse vertex in off file");
     vertexCoordinates[iV] = p;
   }
 
@@ -437,10 +440,12 @@ void SimplePolygonMesh::readMeshFromOffFile(std::istream& in) {
 
     size_t degree;
     faceStream >> degree;
+    if (!faceStream) throw std::runtime_error("could not parse face in off file");
     std::vector<size_t>& face = polygons[iF];
     for (size_t i = 0; i < degree; i++) {
       size_t ind;
       faceStream >> ind;
+      if (!faceStream) throw std::runtime_error("could not parse face in off file");
       face.push_back(ind);
     }
   }
-- 
2.43.0


From 58691a67c09ecd6ad2a0ff5104630710354b5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 080/137] fix: WavefrontOBJ writes the texture coordinates when
 normals are given too

---
 src/surface/meshio.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/meshio.cpp b/src/surface/meshio.cpp
index f1ff8f8..88fe611 100644
--- a/src/surface/meshio.cpp
+++ b/src/surface/meshio.cpp
@@ -238,6 +238,7 @@ bool WavefrontOBJ::write(std::string filename, EmbeddedGeometryInterface& geomet
   cout << endl;
 
   writeVertices(out, geometry);
+  writeTexCoords(out, geometry, texCoords);
   writeNormals(out, geometry, normals);
 
   bool useTexCoords = true;
-- 
2.43.0


From 546fd2a80b8d9440601d99722914430d4a2a38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 081/137] fix: RichSurfaceMeshData writes boundary loop indices
 relative to the faces it stores

---
 src/surface/rich_surface_mesh_data.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/surface/rich_surface_mesh_data.cpp b/src/surface/rich_surface_mesh_data.cpp
index 50c8659..b08909c 100644
--- a/src/surface/rich_surface_mesh_data.cpp
+++ b/src/surface/rich_surface_mesh_data.cpp
@@ -151,9 +151,17 @@ void RichSurfaceMeshData::addMeshConnectivity() {
   auto& elemFace = plyData.getElement("gc_internal_face");
   auto& elemBl= plyData.getElement("gc_internal_bl");
 
+  // Boundary loops are indexed from the back of the face buffer. The empty space in the middle of that buffer is not
+  // written to the file, so these indices shift.
+  std::vector<size_t> heFaceArr(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount);
+  size_t nFaceEmpty = mesh->fHalfedgeArr.size() - mesh->nFacesFillCount - mesh->nBoundaryLoopsFillCount;
+  for (size_t& iF : heFaceArr) {
+    if (iF != INVALID_IND && iF >= mesh->nFacesFillCount) iF -= nFaceEmpty;
+  }
+
   // Halfedge properties
   elemHalfedge.addProperty<uint32_t>("gc_internal_heNextArr", toSmallerVec(mesh->heNextArr.begin(), mesh->heNextArr.begin() + mesh->nHalfedgesFillCount));
-  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(mesh->heFaceArr.begin(), mesh->heFaceArr.begin() + mesh->nHalfedgesFillCount));
+  elemHalfedge.addProperty<uint32_t>("gc_internal_heFaceArr", toSmallerVec(heFaceArr.begin(), heFaceArr.end()));
   elemHalfedge.addProperty<uint32_t>("gc_internal_heVertexArr", toSmallerVec(mesh->heVertexArr.begin(), mesh->heVertexArr.begin() + mesh->nHalfedgesFillCount));
   if(!mesh->usesImplicitTwin()) {
     elemHalfedge.addProperty<uint32_t>("gc_internal_heSiblingArr", toSmallerVec(mesh->heSiblingArr.begin(), mesh->heSiblingArr.begin() + mesh->nHalfedgesFillCount));
-- 
2.43.0


From 267e01beb29b5b3b5eca4aaf7c2944d7c513fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 082/137] fix: containers which outlive their point cloud must
 not access it

---
 src/pointcloud/point_cloud.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud.cpp b/src/pointcloud/point_cloud.cpp
index f2dc02e..902126e 100644
--- a/src/pointcloud/point_cloud.cpp
+++ b/src/pointcloud/point_cloud.cpp
@@ -23,7 +23,11 @@ PointCloud::PointCloud(size_t nPts) {
   isCompressedFlag = true;
 }
 
-PointCloud::~PointCloud() {}
+PointCloud::~PointCloud() {
+  for (auto& f : meshDeleteCallbackList) {
+    f();
+  }
+}
 
 
 // ==========================================================
-- 
2.43.0


From 47aea6dc7cadf18f993fb2b4e4eaa79121cc54e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 083/137] fix: transport between points with opposite normals
 in the basis of the target

---
 src/pointcloud/point_position_geometry.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 4b992ef..0915289 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -350,7 +350,6 @@ std::tuple<Vector2, bool> PointPositionGeometry::transportBetweenOriented(Point
   bool inverted = false;
   if (dot(sourceN, targetN) < 0.) {
     targetN *= -1;
-    targetBasisY *= -1;
     inverted = true;
   }
 
-- 
2.43.0


From dbed7084b7f80e4b50e3701e14ce1ce627efb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 084/137] fix: normals of points with fewer than three
 neighbors

---
 src/pointcloud/point_position_geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 0915289..5cafc02 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -87,7 +87,7 @@ void PointPositionGeometry::computeNormals() {
     }
 
     // Smallest singular vector is best normal
-    Eigen::JacobiSVD<Eigen::MatrixXd> svd(localMat, Eigen::ComputeThinU);
+    Eigen::JacobiSVD<Eigen::MatrixXd> svd(localMat, Eigen::ComputeFullU);
     Eigen::Vector3d bestNormal = svd.matrixU().col(2);
 
     Vector3 N{bestNormal(0), bestNormal(1), bestNormal(2)};
-- 
2.43.0


From 683b25c428c410daaa9ecbaba6c9f97c336f5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 085/137] fix: connection Laplacian of point clouds needs the
 tangent bases

---
 src/pointcloud/point_position_geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pointcloud/point_position_geometry.cpp b/src/pointcloud/point_position_geometry.cpp
index 5cafc02..0629eaf 100644
--- a/src/pointcloud/point_position_geometry.cpp
+++ b/src/pointcloud/point_position_geometry.cpp
@@ -213,6 +213,7 @@ void PointPositionGeometry::unrequireLaplacian() { laplacianQ.unrequire(); }
 void PointPositionGeometry::computeConnectionLaplacian() {
   laplacianQ.ensureHave();
   normalsQ.ensureHave();
+  tangentBasisQ.ensureHave();
 
   // Build the conection Laplacian by hitting each entry of the Laplacian with a tangent rotation r_ij between the
   // corresponding vertices
-- 
2.43.0


From 2a692ca886e50a640d2169f048c53e63197bdb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 086/137] fix: accumulate the contributions of all segments at
 a curve node

---
 src/pointcloud/point_cloud_heat_solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index 60a1c9b..f5d6798 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -298,8 +298,8 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
       size_t vIdxA = geom.pointIndices[vA];
       size_t vIdxB = geom.pointIndices[vB];
       for (int j = 0; j < 2; j++) {
-        X0[2 * vIdxA + j] = curveNormalA[j];
-        X0[2 * vIdxB + j] = curveNormalB[j];
+        X0[2 * vIdxA + j] += curveNormalA[j];
+        X0[2 * vIdxB + j] += curveNormalB[j];
       }
       if (options.preserveSourceNormals) {
         if (curveIndices[vA] < 0) {
-- 
2.43.0


From 275ddf4e321ddf38847553efcf3ac67e444d8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 087/137] fix: signed distances with several level sets came
 from a singular system with an arbitrary offset

---
 src/pointcloud/point_cloud_heat_solver.cpp | 39 ++++++++++++----------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index f5d6798..c0c883b 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -379,23 +379,6 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
   case (LevelSetConstraint::None): {
     ensureHaveHeatDistanceWorker();
     phi = heatDistanceWorker->poissonSolver->solve(divYt);
-    // Shift to average zero along (all of) the source geometry.
-    double shift = 0.;
-    double totalLength = 0.;
-    for (const auto& curve : curves) {
-      size_t nNodes = curve.size();
-      for (size_t i = 0; i < nNodes - 1; i++) {
-        const Point& vA = curve[i];
-        const Point& vB = curve[(i + 1) % nNodes];
-        double length = (geom.positions[vB] - geom.positions[vA]).norm();
-        size_t vIdxA = geom.pointIndices[vA];
-        size_t vIdxB = geom.pointIndices[vB];
-        shift += length * 0.5 * (phi[vIdxA] + phi[vIdxB]);
-        totalLength += length;
-      }
-    }
-    shift /= totalLength;
-    phi -= shift * Vector<double>::Ones(N);
     break;
   }
   case (LevelSetConstraint::ZeroSet): {
@@ -443,8 +426,9 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
   }
   case (LevelSetConstraint::Multiple): {
     geom.tuftedGeom->requireCotanLaplacian();
-    SparseMatrix<double>& L = geom.tuftedGeom->cotanLaplacian;
+    SparseMatrix<double> L = geom.tuftedGeom->cotanLaplacian;
     geom.tuftedGeom->unrequireCotanLaplacian();
+    shiftDiagonal(L, 1e-8); // constants satisfy the constraints, so the system would be singular
 
     std::vector<Eigen::Triplet<double>> triplets;
     SparseMatrix<double> A; // constraint matrix
@@ -478,6 +462,25 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
     break;
   }
   }
+  // Shift to average zero along (all of) the source geometry.
+  if (options.levelSetConstraint != LevelSetConstraint::ZeroSet) {
+    double shift = 0.;
+    double totalLength = 0.;
+    for (const auto& curve : curves) {
+      size_t nNodes = curve.size();
+      for (size_t i = 0; i < nNodes - 1; i++) {
+        const Point& vA = curve[i];
+        const Point& vB = curve[(i + 1) % nNodes];
+        double length = (geom.positions[vB] - geom.positions[vA]).norm();
+        size_t vIdxA = geom.pointIndices[vA];
+        size_t vIdxB = geom.pointIndices[vB];
+        shift += length * 0.5 * (phi[vIdxA] + phi[vIdxB]);
+        totalLength += length;
+      }
+    }
+    shift /= totalLength;
+    phi -= shift * Vector<double>::Ones(N);
+  }
   geom.unrequirePointIndices();
   PointData<double> GSDF(cloud, phi);
 
-- 
2.43.0


From 04db4f214e299ab1ceaf0621c9e5609fa0a7d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 088/137] fix: the soft zero set constraint left out the first
 point of each curve

---
 src/pointcloud/point_cloud_heat_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointcloud/point_cloud_heat_solver.cpp b/src/pointcloud/point_cloud_heat_solver.cpp
index c0c883b..d9268dd 100644
--- a/src/pointcloud/point_cloud_heat_solver.cpp
+++ b/src/pointcloud/point_cloud_heat_solver.cpp
@@ -412,7 +412,7 @@ PointData<double> PointCloudHeatSolver::computeSignedDistance(const std::vector<
         size_t nNodes = curve.size();
         bool isClosed = (curve[0] == curve[nNodes - 1]);
         size_t uB = isClosed ? nNodes - 1 : nNodes;
-        for (size_t i = 1; i < uB; i++) {
+        for (size_t i = 0; i < uB; i++) {
           triplets.emplace_back(m, geom.pointIndices[curve[i]], 1);
           m++;
         }
-- 
2.43.0


From 69df81759669fcd53bf6f79fcebf56b600545c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 089/137] fix: make the curve header includable

---
 include/geometrycentral/utilities/curve.h   | 2 +-
 include/geometrycentral/utilities/curve.ipp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/geometrycentral/utilities/curve.h b/include/geometrycentral/utilities/curve.h
index 1e6910f..bc9141f 100644
--- a/include/geometrycentral/utilities/curve.h
+++ b/include/geometrycentral/utilities/curve.h
@@ -115,4 +115,4 @@ public:
 } // namespace geometrycentral
 
 // Implementation
-#include <curve.ipp>
+#include "geometrycentral/utilities/curve.ipp"
diff --git a/include/geometrycentral/utilities/curve.ipp b/include/geometrycentral/utilities/curve.ipp
index 909435d..9ddb025 100644
--- a/include/geometrycentral/utilities/curve.ipp
+++ b/include/geometrycentral/utilities/curve.ipp
@@ -1,8 +1,10 @@
 #pragma once
 
+#include "geometrycentral/utilities/curve.h"
+
 #include <cmath>
-#include <curve.h>
 #include <iostream>
+#include <stdexcept>
 
 namespace geometrycentral {
 
-- 
2.43.0


From a746f540a2a34443e6b0eb7d6a613b13ab7ea67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 090/137] fix: a Hermite curve with N nodes has length N-1

---
 include/geometrycentral/utilities/curve.ipp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/curve.ipp b/include/geometrycentral/utilities/curve.ipp
index 9ddb025..7da10ee 100644
--- a/include/geometrycentral/utilities/curve.ipp
+++ b/include/geometrycentral/utilities/curve.ipp
@@ -41,6 +41,10 @@ T HermiteCurve<T>::value(double t) const {
 
   double t0 = floor(t);
   size_t i = static_cast<size_t>(t0);
+  if (i + 1 >= n) { // the end of the curve belongs to the last segment
+    i = n - 2;
+    t0 = static_cast<double>(i);
+  }
 
   const T& p0 = nodes[i + 0].value;
   const T& p1 = nodes[i + 1].value;
@@ -85,6 +89,10 @@ T HermiteCurve<T>::derivative(double t, unsigned int k) const {
 
   double t0 = floor(t);
   size_t i = static_cast<size_t>(t0);
+  if (i + 1 >= n) { // the end of the curve belongs to the last segment
+    i = n - 2;
+    t0 = static_cast<double>(i);
+  }
 
   const T& p0 = nodes[i + 0].value;
   const T& p1 = nodes[i + 1].value;
@@ -118,7 +126,8 @@ T HermiteCurve<T>::derivative(double t, unsigned int k) const {
 
 template <typename T>
 double HermiteCurve<T>::length() const {
-  return static_cast<double>(nodes.size());
+  // consecutive nodes are separated by unit length
+  return nodes.empty() ? 0. : static_cast<double>(nodes.size() - 1);
 }
 
 template <typename T>
-- 
2.43.0


From 4f25c2f78c5de445d004c54b7d82b868f53fe182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 091/137] fix: regularizeAngle stays in [0,2pi)

---
 include/geometrycentral/utilities/utilities.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/utilities.h b/include/geometrycentral/utilities/utilities.h
index ffa9f9f..0483560 100644
--- a/include/geometrycentral/utilities/utilities.h
+++ b/include/geometrycentral/utilities/utilities.h
@@ -87,7 +87,12 @@ inline T clamp(T val, T low, T high) {
   return val;
 }
 
-inline double regularizeAngle(double theta) { return theta - 2 * PI * ::std::floor(theta / (2 * PI)); }
+inline double regularizeAngle(double theta) {
+  double reg = theta - 2 * PI * ::std::floor(theta / (2 * PI));
+  // rounding can leave [0,2pi) on either side
+  if (reg < 0. || reg >= 2 * PI) reg = 0.;
+  return reg;
+}
 
 // Applies a permutation such that d_new[i] = d_old[p[i]].
 // Permutation should be injection to [0,sourceData.size()). Return vector has length permNewToOld.size().
-- 
2.43.0


From b32960a88f3b1dab375baa51b36be8b09451fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 092/137] fix: removeFromVector with an element of the vector
 itself

---
 include/geometrycentral/utilities/utilities.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometrycentral/utilities/utilities.h b/include/geometrycentral/utilities/utilities.h
index 0483560..babc9da 100644
--- a/include/geometrycentral/utilities/utilities.h
+++ b/include/geometrycentral/utilities/utilities.h
@@ -112,7 +112,8 @@ std::vector<T, A1> applyPermutation(const std::vector<T, A1>& sourceData, const
 // modifies vector in-place removing all occurences of `obj` according to == (if any)
 template <typename T, typename O>
 void removeFromVector(std::vector<T>& vec, O& obj) {
-  vec.erase(std::remove(vec.begin(), vec.end(), obj), vec.end());
+  const O val = obj; // might be an element of the vector, which gets overwritten
+  vec.erase(std::remove(vec.begin(), vec.end(), val), vec.end());
 }
 
 // === Random number generation ===
-- 
2.43.0


From c2c8e0c67c05686213d673fbaddcd88566a01bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 093/137] fix: initialise the result of triTriIntersection

---
 src/utilities/tri_tri_intersect.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 231c9c9..22c5258 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -26,6 +26,7 @@
 
 #include "geometrycentral/utilities/elementary_geometry.h"
 
+#include <limits>
 #include <math.h>
 
 #define FABS(x) (fabs(x))       /* implement as is fastest on your machine */
@@ -716,8 +717,11 @@ namespace geometrycentral {
 TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC, Vector3 qA, Vector3 qB, Vector3 qC) {
   double V0[3], V1[3], V2[3];
   double U0[3], U1[3], U2[3];
-  int coplanar;
-  double isectpt1[3], isectpt2[3];
+  int coplanar = 0;
+  // (the end points stay undefined if there is no segment of intersection)
+  const double nan = std::numeric_limits<double>::quiet_NaN();
+  double isectpt1[3] = {nan, nan, nan};
+  double isectpt2[3] = {nan, nan, nan};
 
   for (int i = 0; i < 3; i++) {
     V0[i] = pA[i];
-- 
2.43.0


From 0ea82049016aebc2233e4ecb1cea1125c7aaf2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 094/137] fix: triTriIntersection on small triangles

---
 src/utilities/tri_tri_intersect.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/utilities/tri_tri_intersect.cpp b/src/utilities/tri_tri_intersect.cpp
index 22c5258..403dcfb 100644
--- a/src/utilities/tri_tri_intersect.cpp
+++ b/src/utilities/tri_tri_intersect.cpp
@@ -26,6 +26,7 @@
 
 #include "geometrycentral/utilities/elementary_geometry.h"
 
+#include <cmath>
 #include <limits>
 #include <math.h>
 
@@ -723,14 +724,22 @@ TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC
   double isectpt1[3] = {nan, nan, nan};
   double isectpt2[3] = {nan, nan, nan};
 
+  // The tolerance of the test is absolute, so bring the triangles to unit size near the origin. A power of two keeps the
+  // scaling exact.
+  double size = 0.;
+  for (const Vector3& e : {pB - pA, pC - pA, qB - qA, qC - qA}) {
+    for (int i = 0; i < 3; i++) size = std::fmax(size, std::fabs(e[i]));
+  }
+  const double scale = size > 0. && std::isfinite(size) ? std::ldexp(1., std::ilogb(size)) : 1.;
+
   for (int i = 0; i < 3; i++) {
-    V0[i] = pA[i];
-    V1[i] = pB[i];
-    V2[i] = pC[i];
+    V0[i] = 0.;
+    V1[i] = (pB[i] - pA[i]) / scale;
+    V2[i] = (pC[i] - pA[i]) / scale;
 
-    U0[i] = qA[i];
-    U1[i] = qB[i];
-    U2[i] = qC[i];
+    U0[i] = (qA[i] - pA[i]) / scale;
+    U1[i] = (qB[i] - pA[i]) / scale;
+    U2[i] = (qC[i] - pA[i]) / scale;
   }
 
   TriTriIntersectionResult3D result;
@@ -738,8 +747,8 @@ TriTriIntersectionResult3D triTriIntersection(Vector3 pA, Vector3 pB, Vector3 pC
   result.coplanar = coplanar;
 
   for (int i = 0; i < 3; i++) {
-    result.xA[i] = isectpt1[i];
-    result.xB[i] = isectpt2[i];
+    result.xA[i] = pA[i] + scale * isectpt1[i];
+    result.xB[i] = pA[i] + scale * isectpt2[i];
   }
 
   return result;
-- 
2.43.0


From 1ed6ced52169bbce1ca4fa5eb93e4b4377b04d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 095/137] fix: face connection Laplacians of a general
 SurfaceMesh with boundary

---
 src/surface/direction_fields.cpp             | 2 +-
 src/surface/intrinsic_geometry_interface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index be79ff7..7f61f68 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -62,7 +62,7 @@ SparseMatrix<std::complex<double>> computeFaceConnectionLaplacian(IntrinsicGeome
 
     std::complex<double> weightDiagSum = 0;
     for (Halfedge he : f.adjacentHalfedges()) {
-      if (he.twin().isInterior()) {
+      if (!he.edge().isBoundary()) {
 
         Face neighFace = he.twin().face();
         size_t j = geometry.faceIndices[neighFace];
diff --git a/src/surface/intrinsic_geometry_interface.cpp b/src/surface/intrinsic_geometry_interface.cpp
index 5d77674..f021ed9 100644
--- a/src/surface/intrinsic_geometry_interface.cpp
+++ b/src/surface/intrinsic_geometry_interface.cpp
@@ -558,7 +558,7 @@ void IntrinsicGeometryInterface::computeFaceConnectionLaplacian() {
     std::complex<double> weightISum = 0;
     for (Halfedge he : f.adjacentHalfedges()) {
 
-      if (!he.twin().isInterior()) {
+      if (he.edge().isBoundary()) {
         continue;
       }
 
-- 
2.43.0


From 60aacf3364cdb14df5268e81990b6160b070635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 096/137] fix: solve the Dirichlet problem of boundary-aligned
 direction fields

---
 src/surface/direction_fields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index 7f61f68..a8e2de7 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -149,12 +149,8 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireVertexGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInVertex();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.vertexGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeVertexConnectionLaplacian(geometry, nSym);
 
@@ -204,7 +200,7 @@ VertexData<Vector2> computeSmoothestBoundaryAlignedVertexDirectionField(Intrinsi
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a VertexData vector for both the boundary and interior
@@ -229,12 +225,8 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
     throw std::logic_error("tried to compute smoothest boundary aligned direction field on a mesh without boundary");
   }
 
-  geometry.requireFaceGalerkinMassMatrix();
   geometry.requireHalfedgeVectorsInFace();
 
-  // Mass matrix
-  SparseMatrix<std::complex<double>> massMatrix = geometry.faceGalerkinMassMatrix.cast<std::complex<double>>();
-
   // Energy matrix
   SparseMatrix<std::complex<double>> energyMatrix = computeFaceConnectionLaplacian(geometry, nSym);
 
@@ -287,7 +279,7 @@ FaceData<Vector2> computeSmoothestBoundaryAlignedFaceDirectionField(IntrinsicGeo
   }
 
   Eigen::SparseMatrix<std::complex<double>, Eigen::ColMajor> LHS = energyMatrix;
-  Eigen::VectorXcd RHS = massMatrix * b;
+  Eigen::VectorXcd RHS = b;
   Eigen::VectorXcd solution = solveSquare(LHS, RHS);
 
   // Copy the result to a FaceData object
-- 
2.43.0


From d4d339223b75ba6a95d9462fe4daa17fa0cf761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 097/137] fix: computeFaceIndex in faces at the boundary

---
 src/surface/direction_fields.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/surface/direction_fields.cpp b/src/surface/direction_fields.cpp
index a8e2de7..7a849fa 100644
--- a/src/surface/direction_fields.cpp
+++ b/src/surface/direction_fields.cpp
@@ -416,19 +416,17 @@ FaceData<int> computeFaceIndex(IntrinsicGeometryInterface& geometry, const Verte
     double totalRot = geometry.faceGaussianCurvatures[f] * nSym;
 
     for (Halfedge he : f.adjacentHalfedges()) {
-      if (he.twin().isInterior()) {
-        // Compute the rotation along the halfedge implied by the field
-        Vector2 x0 = directionField[he.vertex()];
-        Vector2 x1 = directionField[he.twin().vertex()];
-        Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
+      // Compute the rotation along the halfedge implied by the field
+      Vector2 x0 = directionField[he.vertex()];
+      Vector2 x1 = directionField[he.twin().vertex()];
+      Vector2 rot = geometry.transportVectorsAlongHalfedge[he].pow(nSym);
 
-        // Find the difference in angle
-        double theta0 = (rot * x0).arg();
-        double theta1 = x1.arg();
-        double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
+      // Find the difference in angle
+      double theta0 = (rot * x0).arg();
+      double theta1 = x1.arg();
+      double deltaTheta = regularizeAngle(theta1 - theta0 + PI) - PI; // regularize to [-PI,PI]
 
-        totalRot += deltaTheta; // accumulate
-      }
+      totalRot += deltaTheta; // accumulate
     }
 
     // Compute the net rotation and corresponding index
-- 
2.43.0


From 1044bd2171726ccb4c953c11860fe9c645d8f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 098/137] fix: stripe patterns on meshes which are not
 compressed

---
 src/surface/stripe_patterns.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 6bc2fbc..1a43269 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -120,11 +120,13 @@ SparseMatrix<double> computeRealVertexMassMatrix(IntrinsicGeometryInterface& geo
 
   SurfaceMesh& mesh = geometry.mesh;
 
+  geometry.requireVertexIndices();
   geometry.requireVertexDualAreas();
 
   std::vector<Eigen::Triplet<double>> triplets(2 * mesh.nVertices());
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    double area = geometry.vertexDualAreas[i];
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    double area = geometry.vertexDualAreas[v];
     triplets[2 * i] = Eigen::Triplet<double>(2 * i, 2 * i, area);
     triplets[2 * i + 1] = Eigen::Triplet<double>(2 * i + 1, 2 * i + 1, area);
   }
@@ -152,10 +154,11 @@ VertexData<Vector2> computeParameterization(IntrinsicGeometryInterface& geometry
 
   // Copy the result to a VertexData vector
   VertexData<Vector2> toReturn(mesh);
-  for (size_t i = 0; i < mesh.nVertices(); ++i) {
-    toReturn[i].x = solution(2 * i);
-    toReturn[i].y = solution(2 * i + 1);
-    toReturn[i] = toReturn[i].normalize();
+  for (Vertex v : mesh.vertices()) {
+    size_t i = geometry.vertexIndices[v];
+    toReturn[v].x = solution(2 * i);
+    toReturn[v].y = solution(2 * i + 1);
+    toReturn[v] = toReturn[v].normalize();
   }
   return toReturn;
 }
-- 
2.43.0


From 7eabe79fe9d8ab7178345ed20c50ddd3d907e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 099/137] fix: sheets of the line field within a face of a
 stripe pattern

---
 src/surface/stripe_patterns.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 1a43269..dbee106 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -191,15 +191,15 @@ std::tuple<CornerData<double>, FaceData<int>> computeTextureCoordinates(Intrinsi
       double omegaIJ = cIJ * computeOmega(geometry, directionField, frequencies, he.edge());
 
       auto crossesSheets = [&](Halfedge hTarget) {
-        Halfedge h = f.halfedge();
-        Vector2 Xi = Vector2::fromAngle(directionField[h.vertex()].arg() / 2);
-        Vector2 Xj = Vector2::fromAngle(directionField[hTarget.vertex()].arg() / 2);
-        while (h != hTarget) {
+        // (edge by edge, such that the result agrees with the 1-form on each of them)
+        bool crosses = false;
+        for (Halfedge h = f.halfedge(); h != hTarget; h = h.next()) {
+          Vector2 Xi = Vector2::fromAngle(directionField[h.vertex()].arg() / 2);
+          Vector2 Xj = Vector2::fromAngle(directionField[h.next().vertex()].arg() / 2);
           Vector2 r = geometry.transportVectorsAlongHalfedge[h];
-          Xi = r * Xi;
-          h = h.next();
+          if (dot(r * Xi, Xj) <= 0) crosses = !crosses;
         }
-        return dot(Xi, Xj) <= 0;
+        return crosses;
       };
 
       if (crossesSheets(he)) {
-- 
2.43.0


From d1acee5bb3a803d88b07229649302665931de959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 100/137] fix: do not connect stripes within branch faces,
 whose crossings are inconsistent

---
 src/surface/stripe_patterns.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index dbee106..0f30e59 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -461,7 +461,8 @@ void connectIsolinesOnSingularities(EmbeddedGeometryInterface& geometry, const C
   geometry.requireFaceIndices();
 
   for (Face f : mesh.faces()) {
-    if (stripeIndices[f] != 0) {
+    // (the crossings at branch points of the field are not consistent, so they can't be matched)
+    if (stripeIndices[f] != 0 && branchIndices[f] == 0) {
       std::vector<std::vector<Vector3>> facePoints;
       std::vector<std::vector<size_t>> faceIndices;
       for (Halfedge he : f.adjacentHalfedges()) {
-- 
2.43.0


From 4f6935a27805f0634c20a676a4b0fc09f4e26361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 101/137] fix: preserve the triangle inequality on all edges
 when connecting stripes at singularities

---
 src/surface/stripe_patterns.cpp | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/surface/stripe_patterns.cpp b/src/surface/stripe_patterns.cpp
index 0f30e59..4232d00 100644
--- a/src/surface/stripe_patterns.cpp
+++ b/src/surface/stripe_patterns.cpp
@@ -385,7 +385,7 @@ extractCrossingsFromStripePattern(EmbeddedGeometryInterface& geometry, const Cor
 }
 
 // Returns positions of maximum values, skipping some values to focus on IJ if the triangular inequality needs to be
-// preserved. M = nIJ - nJK - nKI, should be at most 0
+// preserved. excess(IJ) = nIJ - nJK - nKI should be at most 0 in the end, for each of the edges
 std::vector<std::vector<size_t>> removeCrossings(std::vector<std::pair<double, std::array<size_t, 2>>>& values, int N,
                                                  std::vector<std::vector<size_t>>& faceIndices) {
   using elemType = std::pair<double, std::array<size_t, 2>>;
@@ -395,33 +395,26 @@ std::vector<std::vector<size_t>> removeCrossings(std::vector<std::pair<double, s
   for (int i = 0; i < 3; ++i) removed[i] = std::vector<bool>(faceIndices[i].size(), false);
 
   assert(faceIndices.size() == 3);
-  size_t idxIJ = 0;
-  if (faceIndices[1].size() >= faceIndices[2].size() && faceIndices[1].size() >= faceIndices[0].size()) {
-    idxIJ = 1;
-  } else if (faceIndices[2].size() >= faceIndices[1].size() && faceIndices[2].size() >= faceIndices[0].size()) {
-    idxIJ = 2;
-  }
+  int n[3]; // number of remaining points on each edge
+  for (int k = 0; k < 3; ++k) n[k] = faceIndices[k].size();
+  auto excess = [&](int k) { return n[k] - n[(k + 1) % 3] - n[(k + 2) % 3]; };
 
-  int M = faceIndices[idxIJ].size() - faceIndices[(idxIJ + 1) % 3].size() - faceIndices[(idxIJ + 2) % 3].size();
   int nbRemoved = 0; // total number of removed points
-  int i = 0;
-  while (nbRemoved < N) {
+  for (size_t i = 0; i < values.size() && nbRemoved < N; ++i) {
     std::array<size_t, 2> indices = values[i].second;
-    if (indices[0] == idxIJ) {
-      --M;
-    } else {
-      if (N - nbRemoved <= M) {
-        ++i;
-        continue;
-      }
-      ++M;
+
+    // skip this point if the points which are still to be removed couldn't restore the triangle inequality
+    --n[indices[0]];
+    int nbLeft = N - nbRemoved - 1;
+    if (excess(0) > nbLeft || excess(1) > nbLeft || excess(2) > nbLeft) {
+      ++n[indices[0]];
+      continue;
     }
 
     removed[indices[0]][indices[1]] = true;
     ++nbRemoved;
-    ++i;
   }
-  assert(M <= 0);
+  assert(excess(0) <= 0 && excess(1) <= 0 && excess(2) <= 0);
 
   std::vector<std::vector<size_t>> crossingIndices(3);
   for (size_t i = 0; i < 3; ++i)
-- 
2.43.0


From c357ceadb8dbe4424d5eccc01722c40c094f128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 102/137] fix: shortest edge paths along the boundary of
 general meshes

---
 src/surface/mesh_graph_algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/mesh_graph_algorithms.cpp b/src/surface/mesh_graph_algorithms.cpp
index d08c106..025c820 100644
--- a/src/surface/mesh_graph_algorithms.cpp
+++ b/src/surface/mesh_graph_algorithms.cpp
@@ -35,7 +35,7 @@ std::vector<Halfedge> shortestEdgePath(IntrinsicGeometryInterface& geom, Vertex
   };
   auto enqueueVertexNeighbors = [&](Vertex v, double dist) {
     for (Halfedge he : v.outgoingHalfedges()) {
-      if (!vertexDiscovered(he.twin().vertex())) {
+      if (!vertexDiscovered(he.tipVertex())) {
         double len = geom.edgeLengths[he.edge()];
         double targetDist = dist + len;
         pq.emplace(targetDist, he);
@@ -53,7 +53,7 @@ std::vector<Halfedge> shortestEdgePath(IntrinsicGeometryInterface& geom, Vertex
     Halfedge currIncomingHalfedge = std::get<1>(pq.top());
     pq.pop();
 
-    Vertex currVert = currIncomingHalfedge.twin().vertex();
+    Vertex currVert = currIncomingHalfedge.tipVertex();
     if (vertexDiscovered(currVert)) continue;
 
     // Accept the neighbor
-- 
2.43.0


From a0584018678bd46417d03fe782e0e2c8a32c1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 103/137] fix: intersections between two different meshes, and
 of coplanar triangles

---
 src/surface/intersection.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/surface/intersection.cpp b/src/surface/intersection.cpp
index 90100ac..4584b80 100644
--- a/src/surface/intersection.cpp
+++ b/src/surface/intersection.cpp
@@ -50,8 +50,9 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         j++;
       }
 
-      // skip triangles that share vertices
-      if (!(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
+      // skip triangles that share vertices (if they are from the same mesh)
+      if (&mesh1 != &mesh2 ||
+          !(u[0] == v[0] || u[0] == v[1] || u[0] == v[2] || u[1] == v[0] || u[1] == v[1] || u[1] == v[2] ||
             u[2] == v[0] || u[2] == v[1] || u[2] == v[2])) {
 
         // get vertex locations
@@ -68,10 +69,12 @@ SurfaceIntersectionResult intersections(EmbeddedGeometryInterface& geometry1, Em
         // add to list of all intersections
         if (r.intersect) {
           intersections.hasIntersections = true;
-          intersections.points.push_back(r.xA);
-          intersections.points.push_back(r.xB);
-          intersections.edges.push_back({n, n + 1});
-          n += 2;
+          if (!r.coplanar) { // (coplanar triangles don't intersect in a segment)
+            intersections.points.push_back(r.xA);
+            intersections.points.push_back(r.xB);
+            intersections.edges.push_back({n, n + 1});
+            n += 2;
+          }
         }
       }
     }
-- 
2.43.0


From ae4c0953da8ea592d123cc428c5995d1bdd9cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 104/137] fix: step of the centroidal Voronoi iteration to the
 mean

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index 8b20d16..66041d9 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -104,7 +104,6 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
 
           energy += dist * dist * weight;
         }
-        updateSum /= updateWSum;
         Vector2 update = updateSum / updateWSum;
 
         // Take a step
-- 
2.43.0


From ee4e7887cc4a339a2c11af93435e4982caf39e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 105/137] fix: return Voronoi distributions on the input mesh

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index 66041d9..f0c70dc 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -30,6 +30,9 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
     for (size_t iS = 0; iS < result.siteLocations.size(); iS++) {
       result.siteLocations[iS] = intTri->equivalentPointOnInput(result.siteLocations[iS]);
     }
+    for (VertexData<double>& distribution : result.siteDistributions) {
+      distribution = intTri->restrictToInput(distribution);
+    }
 
     return result;
   }
-- 
2.43.0


From 71696e78673ed20bdff9ecf33216656e71861bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 106/137] fix: parents of cut meshes which are not compressed

---
 src/surface/surgery.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 74a7020..8ca90b7 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -14,8 +14,8 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
   // Initialize parent references
   // The built-in dynamic container updates will automatically keep this container in sync as we modify the mesh
   HalfedgeData<Halfedge> parentHalfedges(*mesh, Halfedge());
-  for (size_t i = 0; i < mesh->nHalfedges(); i++) {
-    parentHalfedges[i] = origMesh.halfedge(i);
+  for (Halfedge he : mesh->halfedges()) {
+    parentHalfedges[he] = origMesh.halfedge(he.getIndex()); // (the copy has the same indices)
   }
 
   // Transfer the cut data to the new mesh.
-- 
2.43.0


From f95744a3a2538fc6975b71b1aeaffacc08b059d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 107/137] fix: cut along trees which touch the boundary

---
 src/surface/surgery.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/surface/surgery.cpp b/src/surface/surgery.cpp
index 8ca90b7..15769fc 100644
--- a/src/surface/surgery.cpp
+++ b/src/surface/surgery.cpp
@@ -58,6 +58,15 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
   }
   if (firstEdge == Edge())
     throw std::runtime_error("could not find leaf edge. must cut along simple disk tree. see note");
+
+  // if the tree touches the boundary, start there
+  for (Edge e : mesh->edges()) {
+    if (cut[e] && (e.halfedge().vertex().isBoundary() || e.halfedge().twin().vertex().isBoundary())) {
+      firstEdge = e;
+      break;
+    }
+  }
+
   queue.emplace(firstEdge);
   considered[firstEdge] = true;
 
@@ -66,18 +75,7 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
     Edge e = queue.front();
     queue.pop();
 
-    // Cache to restore after separate
-    Halfedge oldParent = parentHalfedges[e.halfedge()];
-    Halfedge oldParentT = parentHalfedges[e.halfedge().twin()];
-
-    Halfedge newHe, newHeOpp;
-    std::tie(newHe, newHeOpp) = mesh->separateEdge(e); // all the hard works happens here
-
-    // Keep the parent map accurate
-    parentHalfedges[newHe] = oldParent;
-    parentHalfedges[newHeOpp] = oldParentT;
-
-    // Add new neighbors for processing
+    // Add new neighbors for processing (before vertices are split)
     for (Edge en : e.halfedge().vertex().adjacentEdges()) {
       if (cut[en] && !considered[en]) {
         considered[en] = true;
@@ -90,6 +88,17 @@ std::tuple<std::unique_ptr<ManifoldSurfaceMesh>, HalfedgeData<Halfedge>> cutAlon
         queue.emplace(en);
       }
     }
+
+    // Cache to restore after separate
+    Halfedge oldParent = parentHalfedges[e.halfedge()];
+    Halfedge oldParentT = parentHalfedges[e.halfedge().twin()];
+
+    Halfedge newHe, newHeOpp;
+    std::tie(newHe, newHeOpp) = mesh->separateEdge(e); // all the hard works happens here
+
+    // Keep the parent map accurate
+    parentHalfedges[newHe] = oldParent;
+    parentHalfedges[newHeOpp] = oldParentT;
   }
 
   // Clear out any stale boundary parents
-- 
2.43.0


From 9aae061073ad33a3a3a026bfe147d266fff09be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 108/137] fix: Poisson disk samples closer than the minimum
 distance

---
 src/surface/poisson_disk_sampler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index afb70cd..edc5b58 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -171,11 +171,11 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
   SpatialKey queryKey = positionKey(queryPoint);
 
-  // Check all adjacent buckets. Each bucket's sidelength is chosen to be small enough such that if any two adjacent
-  // buckets contain points, their points are guaranteed to be within r of each other.
-  for (int offsetX = -1; offsetX <= 1; offsetX++) {
-    for (int offsetY = -1; offsetY <= 1; offsetY++) {
-      for (int offsetZ = -1; offsetZ <= 1; offsetZ++) {
+  // Check all buckets which may contain points within r. Each bucket's sidelength is r / sqrt(3), so these are up to two
+  // buckets away.
+  for (int offsetX = -2; offsetX <= 2; offsetX++) {
+    for (int offsetY = -2; offsetY <= 2; offsetY++) {
+      for (int offsetZ = -2; offsetZ <= 2; offsetZ++) {
 
         SpatialKey bucketKey = queryKey;
         bucketKey[0] += offsetX;
-- 
2.43.0


From b1f1c361f6e6dd6b600dfec4b0b285f0b42986db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 109/137] fix: avoidance of solid balls by Poisson disk samples

---
 .../surface/poisson_disk_sampler.h            |  1 +
 src/surface/poisson_disk_sampler.cpp          | 23 ++++++-------------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/geometrycentral/surface/poisson_disk_sampler.h b/include/geometrycentral/surface/poisson_disk_sampler.h
index 2d34c82..c95cb73 100644
--- a/include/geometrycentral/surface/poisson_disk_sampler.h
+++ b/include/geometrycentral/surface/poisson_disk_sampler.h
@@ -47,6 +47,7 @@ private:
   typedef std::array<long long int, 3> SpatialKey;
   std::map<SpatialKey, Vector3> spatialBuckets;
   Vector3 mapCenter;
+  std::vector<std::pair<Vector3, double>> ballsToAvoid; // centers and radii of solid balls without samples
 
   // ===== Utility and auxiliary functions
   std::tuple<Vector3, Vector3> boundingBox();
diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index edc5b58..9ee043a 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -143,22 +143,8 @@ void PoissonDiskSampler::addPointToSpatialLookupWithRadius(const SurfacePoint& n
       r += rMinDist;
     }
   } else {
-    // This places fictitious points in a *solid 3D ball* approximately of radius R*r centered at <newPoint>.
-    // The solid ball is built by constructing R layers, radially outward; each layer is spaced r apart, and
-    // points in each layer are spaced approx. r apart in a "grid" (a mapping from the cylinder to the sphere that has
-    // been scaled s.t. projected points end up being approx. r apart.)
-    double r = rMinDist;
-    while (r < radius) {
-      for (double z = -0.99; z <= 0.99; z += rMinDist) {
-        double coeff = std::sqrt(1. - z * z);
-        for (double theta = 0.0; theta <= 2.0 * PI; theta += rMinDist / coeff) {
-          Vector3 pos = {r * coeff * std::cos(theta), r * coeff * std::sin(theta), r * z};
-          pos += newPos;
-          addPointToSpatialLookup(pos);
-        }
-      }
-      r += rMinDist;
-    }
+    // All candidates in the *solid 3D ball* are rejected
+    ballsToAvoid.emplace_back(newPos, radius);
   }
 }
 
@@ -171,6 +157,10 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
   Vector3 queryPoint = candidate.interpolate(geometry.vertexPositions);
   SpatialKey queryKey = positionKey(queryPoint);
 
+  for (const std::pair<Vector3, double>& ball : ballsToAvoid) {
+    if ((queryPoint - ball.first).norm() < ball.second) return false;
+  }
+
   // Check all buckets which may contain points within r. Each bucket's sidelength is r / sqrt(3), so these are up to two
   // buckets away.
   for (int offsetX = -2; offsetX <= 2; offsetX++) {
@@ -242,6 +232,7 @@ void PoissonDiskSampler::clearData() {
 
   samples.clear();
   spatialBuckets.clear();
+  ballsToAvoid.clear();
 }
 
 /*
-- 
2.43.0


From 3c30716e30c697cc6abd4ac0048329e7e3406006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 110/137] fix: the first Poisson disk sample of each component
 ignored other samples and points to avoid

---
 src/surface/poisson_disk_sampler.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index 9ee043a..f949e4b 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -1,5 +1,7 @@
 #include "geometrycentral/surface/poisson_disk_sampler.h"
 
+#include <queue>
+
 namespace geometrycentral {
 namespace surface {
 
@@ -189,11 +191,25 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
  */
 void PoissonDiskSampler::sampleOnConnectedComponent(const Face& f) {
 
-  // Get initial sample.
+  // Get initial sample, from the first face of the component where it is valid.
   Vector3 baryCoords = {1. / 3., 1. / 3., 1. / 3.};
-  SurfacePoint x0(f, baryCoords);
   activeList.clear();
-  addNewSample(x0);
+  FaceData<char> marked(mesh, false);
+  marked[f] = true;
+  std::queue<Face> queue({f});
+  while (!queue.empty()) {
+    SurfacePoint x0(queue.front(), baryCoords);
+    if (isCandidateValid(x0)) {
+      addNewSample(x0);
+      break;
+    }
+    for (Face g : queue.front().adjacentFaces()) {
+      if (marked[g]) continue;
+      marked[g] = true;
+      queue.push(g);
+    }
+    queue.pop();
+  }
 
   while (activeList.size() > 0) {
     // Select a random point from the active list.
-- 
2.43.0


From fc917bc060b1e4c0928b73dd91813c4000a1b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 111/137] fix: marching triangles where the level set passes
 through vertices

---
 src/surface/marching_triangles.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 5436d8f..4172cf2 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -66,32 +66,33 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
   SurfaceMesh& mesh = *u.getMesh();
   std::vector<SurfacePoint> nodes;
   std::vector<std::array<size_t, 2>> edges;
+  EdgeData<bool> edgeAdded(mesh, false); // edges which are part of the level set
   for (Face f : mesh.faces()) {
     std::vector<SurfacePoint> hits;
     BarycentricVector gradient(f);
+    Edge hitEdge;
     for (Halfedge he : f.adjacentHalfedges()) {
+      // Record crossings at vertices
+      if (u[he.vertex()] == isoval) hits.emplace_back(he.vertex());
       // Record edge crossings
       Edge e = he.edge();
-      Vertex v0 = e.firstVertex();
-      Vertex v1 = e.secondVertex();
-      double u0 = u[v0];
-      double u1 = u[v1];
-      double lB = std::min(u0, u1);
-      double uB = std::max(u0, u1);
-      if (lB == uB && lB == isoval) {
-        hits.clear();
-        hits = {SurfacePoint(v0), SurfacePoint(v1)};
-        break;
+      double u0 = u[e.firstVertex()];
+      double u1 = u[e.secondVertex()];
+      if (u0 == isoval && u1 == isoval) hitEdge = e;
+      if ((u0 < isoval && u1 > isoval) || (u0 > isoval && u1 < isoval)) {
+        hits.emplace_back(e, (isoval - u0) / (u1 - u0));
       }
-      double t = (isoval - lB) / (uB - lB);
-      if (u0 > u1) t = 1. - t;
-      if (t <= 1. && t >= 0.) hits.emplace_back(e, t);
       // Compute gradient of the scalar function.
       BarycentricVector heVec(he.next(), f);
       BarycentricVector ePerp = heVec.rotate90(geom);
       gradient += ePerp * u[he.vertex()];
     }
     if (hits.size() != 2) continue;
+    if (hitEdge != Edge()) {
+      // The same segment is found in the other faces of the edge
+      if (edgeAdded[hitEdge]) continue;
+      edgeAdded[hitEdge] = true;
+    }
 
     // Orient segments so that smaller values are always on the "inside" of the curve.
     std::array<size_t, 2> seg;
-- 
2.43.0


From 041f4c57d7f323508380c89240a978b182c0d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 112/137] fix: marching triangles where two faces share several
 edges

---
 src/surface/marching_triangles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/marching_triangles.cpp b/src/surface/marching_triangles.cpp
index 4172cf2..21a1bc7 100644
--- a/src/surface/marching_triangles.cpp
+++ b/src/surface/marching_triangles.cpp
@@ -105,8 +105,8 @@ std::vector<std::vector<SurfacePoint>> marchingTriangles(IntrinsicGeometryInterf
         seg[i] = nodes.size() - 1;
       }
     }
-    BarycentricVector segTangent(hits[0], hits[1]);
-    BarycentricVector segNormal = -segTangent.inFace(f).rotate90(geom);
+    BarycentricVector segTangent(hits[0].inFace(f), hits[1].inFace(f));
+    BarycentricVector segNormal = -segTangent.rotate90(geom);
     if (dot(geom, segNormal, gradient) > 0.) {
       edges.push_back(seg);
     } else {
-- 
2.43.0


From f37e2c28569a2a84f06e3f2868806d9d35b4a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 113/137] fix: random Voronoi sites on meshes which are not
 compressed

---
 src/surface/geodesic_centroidal_voronoi_tessellation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
index f0c70dc..d2aefaa 100644
--- a/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
+++ b/src/surface/geodesic_centroidal_voronoi_tessellation.cpp
@@ -55,8 +55,10 @@ VoronoiResult computeGeodesicCentroidalVoronoiTessellation(ManifoldSurfaceMesh&
   // Set points to start
   std::vector<SurfacePoint> siteLocations = options.initialSites;
   if (siteLocations.empty()) {
+    std::vector<Face> faces; // (the mesh might not be compressed)
+    for (Face f : mesh.faces()) faces.push_back(f);
     for (size_t i = 0; i < options.nSites; i++) {
-      Face startF = mesh.face(randomIndex(mesh.nFaces()));
+      Face startF = faces[randomIndex(faces.size())];
       double u = unitRand();
       Vector3 bCoord{u, 0.5 * (1.0 - u), 0.5 * (1.0 - u)};
       SurfacePoint fp{startF, bCoord};
-- 
2.43.0


From c1a8cdbee127b2171c3f7db61d34b7aef926e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 114/137] fix: random initial guess of centers on meshes which
 are not compressed

---
 src/surface/surface_centers.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/surface_centers.cpp b/src/surface/surface_centers.cpp
index 0044f11..df6a5a2 100644
--- a/src/surface/surface_centers.cpp
+++ b/src/surface/surface_centers.cpp
@@ -64,7 +64,13 @@ SurfacePoint findCenter(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInterface& g
   //}
 
   // Random initial guess
-  initialGuess = SurfacePoint(mesh.vertex(randomIndex(mesh.nVertices())));
+  size_t iGuess = randomIndex(mesh.nVertices());
+  for (Vertex v : mesh.vertices()) { // (the mesh might not be compressed)
+    if (iGuess-- == 0) {
+      initialGuess = SurfacePoint(v);
+      break;
+    }
+  }
 
   // Compute an approximate mesh diameter to use as parameter in the p=1 case
   double meshDiameter = 1.;
-- 
2.43.0


From cf3b4a9da3ff29aab242ce9eca9e3842b01e5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:28 +0000
Subject: [PATCH 115/137] fix: points to avoid by Poisson disk samples which
 share a bucket

---
 include/geometrycentral/surface/poisson_disk_sampler.h | 2 +-
 src/surface/poisson_disk_sampler.cpp                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/poisson_disk_sampler.h b/include/geometrycentral/surface/poisson_disk_sampler.h
index c95cb73..22f2465 100644
--- a/include/geometrycentral/surface/poisson_disk_sampler.h
+++ b/include/geometrycentral/surface/poisson_disk_sampler.h
@@ -45,7 +45,7 @@ private:
 
   // Spatial lookup structure
   typedef std::array<long long int, 3> SpatialKey;
-  std::map<SpatialKey, Vector3> spatialBuckets;
+  std::multimap<SpatialKey, Vector3> spatialBuckets; // (points to avoid may share a bucket)
   Vector3 mapCenter;
   std::vector<std::pair<Vector3, double>> ballsToAvoid; // centers and radii of solid balls without samples
 
diff --git a/src/surface/poisson_disk_sampler.cpp b/src/surface/poisson_disk_sampler.cpp
index f949e4b..54fb03f 100644
--- a/src/surface/poisson_disk_sampler.cpp
+++ b/src/surface/poisson_disk_sampler.cpp
@@ -174,8 +174,8 @@ bool PoissonDiskSampler::isCandidateValid(const SurfacePoint& candidate) const {
         bucketKey[1] += offsetY;
         bucketKey[2] += offsetZ;
 
-        auto bucketIter = spatialBuckets.find(bucketKey);
-        if (bucketIter != spatialBuckets.end()) {
+        auto bucketRange = spatialBuckets.equal_range(bucketKey);
+        for (auto bucketIter = bucketRange.first; bucketIter != bucketRange.second; ++bucketIter) {
           if ((queryPoint - bucketIter->second).norm() < rMinDist) {
             return false;
           }
-- 
2.43.0


From 7adf0b8d49c52c16119d0bae76d7197f1604a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 116/137] fix: BFF factors the shifted Laplacian, not the
 singular one

---
 src/surface/boundary_first_flattening.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index d479c91..f739b8d 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -48,8 +48,6 @@ BFF::BFF(ManifoldSurfaceMesh& mesh_, IntrinsicGeometryInterface& geo_) : mesh(me
   nInterior = mesh.nInteriorVertices();
   nBoundary = nVertices - nInterior;
 
-  geo.requireCotanLaplacian();
-  SparseMatrix<double> L = geo.cotanLaplacian;
   shiftDiagonal(L, 1e-12);
 
   Ldecomp = blockDecomposeSquare(L, isInterior);
-- 
2.43.0


From 48d177e4c659bd60a75fc762ddc0bd5fad14e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 117/137] fix: buildTuftedLaplacian threw for every
 ManifoldSurfaceMesh

---
 src/surface/tufted_laplacian.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/surface/tufted_laplacian.cpp b/src/surface/tufted_laplacian.cpp
index f845f0f..5cf2aad 100644
--- a/src/surface/tufted_laplacian.cpp
+++ b/src/surface/tufted_laplacian.cpp
@@ -11,9 +11,22 @@ std::tuple<SparseMatrix<double>, SparseMatrix<double>>
 buildTuftedLaplacian(SurfaceMesh& mesh, EmbeddedGeometryInterface& geom, double relativeMollificationFactor) {
 
   // Create a copy of the mesh / geometry to operate on
-  std::unique_ptr<SurfaceMesh> tuftedMesh = mesh.copyToSurfaceMesh();
+  std::unique_ptr<SurfaceMesh> tuftedMesh;
+  VertexData<Vector3> tuftedPositions;
   geom.requireVertexPositions();
-  VertexPositionGeometry tuftedGeom(*tuftedMesh, geom.vertexPositions.reinterpretTo(*tuftedMesh));
+  if (mesh.usesImplicitTwin()) {
+    // the cover can only be built on a general mesh
+    tuftedMesh.reset(new SurfaceMesh(mesh.getFaceVertexList()));
+    tuftedPositions = VertexData<Vector3>(*tuftedMesh);
+    size_t iV = 0;
+    for (Vertex v : mesh.vertices()) {
+      tuftedPositions[iV++] = geom.vertexPositions[v];
+    }
+  } else {
+    tuftedMesh = mesh.copyToSurfaceMesh();
+    tuftedPositions = geom.vertexPositions.reinterpretTo(*tuftedMesh);
+  }
+  VertexPositionGeometry tuftedGeom(*tuftedMesh, tuftedPositions);
   tuftedGeom.requireEdgeLengths();
   EdgeData<double> tuftedEdgeLengths = tuftedGeom.edgeLengths;
 
-- 
2.43.0


From 6e53649fa3d8ec3e3688744c2a51cab58a779085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 118/137] fix: sign of the scale factors in BFF
 dirichletToNeumann

---
 src/surface/boundary_first_flattening.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/boundary_first_flattening.cpp b/src/surface/boundary_first_flattening.cpp
index f739b8d..66b5973 100644
--- a/src/surface/boundary_first_flattening.cpp
+++ b/src/surface/boundary_first_flattening.cpp
@@ -127,7 +127,8 @@ VertexData<Vector2> BFF::flattenFromBoth(const Vector<double>& uBdy, const Vecto
 }
 
 Vector<double> BFF::dirichletToNeumann(const Vector<double>& uBdy) {
-  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai - Lib * uBdy)) - Lbb * uBdy;
+  // Solve L u = -Omega in the interior, then k = Omega + L u along the boundary
+  return Omegab - (Lib.transpose() * Liisolver->solve(Omegai + Lib * uBdy)) + Lbb * uBdy;
 }
 
 Vector<double> BFF::neumannToDirichlet(const Vector<double>& kBdy) {
-- 
2.43.0


From 20f49fff61117c828cb19dfb0d70d7e01736bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 119/137] fix: ConvexEmbedder keeps the correspondence with the
 input up to date

---
 src/surface/embed_convex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 3b84819..1bcb504 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -141,7 +141,8 @@ bool ConvexEmbedder::init() {
     return false;
   }
 
-  flipToDelaunay(*currentMesh, intrinsicTriangulation->edgeLengths);
+  // NOTE: must be the member function, which also updates the normal coordinates
+  intrinsicTriangulation->flipToDelaunay();
   if (!initializeRadii()) {
     cerr << "ConvexEmbedder: failed to initialize embedding." << endl;
     return false;
-- 
2.43.0


From d9b933ec75df60d348815df56c4e899d543c6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 120/137] fix: the hyperbolic Delaunay test of flipToDelaunay
 depended on the scale

---
 src/surface/simple_idt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/simple_idt.cpp b/src/surface/simple_idt.cpp
index 9b22036..b4d1185 100644
--- a/src/surface/simple_idt.cpp
+++ b/src/surface/simple_idt.cpp
@@ -104,7 +104,8 @@ size_t flipToDelaunay(SurfaceMesh& mesh, EdgeData<double>& edgeLengths, FlipType
         score += lC / (lA * lB);
       }
 
-      return score < -delaunayEPS;
+      // (the score is an inverse length, make the test independent of the scale)
+      return score * edgeLengths[e] < -delaunayEPS;
       break;
     }
     case FlipType::Euclidean: {
-- 
2.43.0


From 238ab4aece414872da94f5da0c6d56a75612cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 121/137] fix: uniformizeDisk and parameterizeDisk on meshes
 which are not compressed

---
 src/surface/parameterize.cpp | 2 +-
 src/surface/uniformize.cpp   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/surface/parameterize.cpp b/src/surface/parameterize.cpp
index 04c86ec..fde3629 100644
--- a/src/surface/parameterize.cpp
+++ b/src/surface/parameterize.cpp
@@ -63,7 +63,7 @@ VertexData<Vector2> parameterizeDisk(ManifoldSurfaceMesh& origMesh, IntrinsicGeo
   };
 
   // initialize the layout
-  Halfedge he0 = mesh.halfedge(0);
+  Halfedge he0 = *mesh.halfedges().begin();
   Vertex v0 = he0.vertex();
   Vertex v1 = he0.twin().vertex();
   coords[v0] = Vector2{0., 0.};
diff --git a/src/surface/uniformize.cpp b/src/surface/uniformize.cpp
index 8885d3e..4ddd572 100644
--- a/src/surface/uniformize.cpp
+++ b/src/surface/uniformize.cpp
@@ -38,11 +38,13 @@ EdgeData<double> uniformizeDisk(ManifoldSurfaceMesh& mesh, IntrinsicGeometryInte
   size_t N = mesh.nVertices();
   size_t N_b = 0;
   Vector<bool> isInterior(N);
-  for (size_t i = 0; i < N; i++) {
-    isInterior(i) = !mesh.vertex(i).isBoundary();
-    if (!isInterior(i)) {
+  size_t iV = 0;
+  for (Vertex v : mesh.vertices()) {
+    isInterior(iV) = !v.isBoundary();
+    if (!isInterior(iV)) {
       N_b++;
     }
+    iV++;
   }
 
 
-- 
2.43.0


From 382b23db0b36d212c709d22f13e57682c8d8bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 122/137] fix: embedConvex depended on the scale of the metric

---
 include/geometrycentral/surface/embed_convex.h | 4 ++--
 src/surface/embed_convex.cpp                   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/embed_convex.h b/include/geometrycentral/surface/embed_convex.h
index cbd6851..37b39c8 100644
--- a/include/geometrycentral/surface/embed_convex.h
+++ b/include/geometrycentral/surface/embed_convex.h
@@ -100,8 +100,8 @@ protected:
   std::pair<SparseMatrix<double>, bool> buildHessian();
 
   // Returns the minimum residual of the triangle
-  // inequality at any corner; if this value is
-  // negative, the triangle inequality has been violated.
+  // inequality at any corner, relative to the mean
+  // edge length; if this value is negative, the triangle inequality has been violated.
   double minTriSlack();
 
   // Local geometry
diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 1bcb504..13e6435 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -464,6 +464,7 @@ pair<SparseMatrix<double>, bool> ConvexEmbedder::buildHessian() {
 
 double ConvexEmbedder::minTriSlack() {
   double m = numeric_limits<double>::max();
+  double meanLength = 0.;
 
   for (Halfedge ij : currentMesh->halfedges()) {
     Vertex i = ij.vertex();
@@ -472,9 +473,10 @@ double ConvexEmbedder::minTriSlack() {
     m = min(m, l(ij) + r[i] - r[j]);
     m = min(m, r[i] + r[j] - l(ij));
     m = min(m, r[j] + l(ij) - r[i]);
+    meanLength += l(ij) / currentMesh->nHalfedges();
   }
 
-  return m;
+  return m / meanLength;
 }
 
 // Returns the interior angle of the boundary triangle ijk at corner i
-- 
2.43.0


From 2aac0cbb27aa86f0f2a40fb59ba6d9951c265011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 123/137] fix: embedConvex started from a degenerate
 configuration

---
 src/surface/embed_convex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface/embed_convex.cpp b/src/surface/embed_convex.cpp
index 13e6435..9e34263 100644
--- a/src/surface/embed_convex.cpp
+++ b/src/surface/embed_convex.cpp
@@ -229,8 +229,9 @@ double ConvexEmbedder::initialRadius() {
 bool ConvexEmbedder::initializeRadii() {
   // initial radii for a convex metric
   r = VertexData<double>(*currentMesh);
-  double R = initialRadius();
   const double initRadiusFactor = 1.5;
+  // (for the smallest possible radius itself there is a flat tetrahedron, where the Hessian is not defined)
+  double R = initRadiusFactor * initialRadius();
   bool polytopeIsValid = false;
   while (true) {
     for (Vertex i : currentMesh->vertices()) {
-- 
2.43.0


From 4d18442329f95b494f5d6ca28ef9c424998c7a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 124/137] fix: MutationManager::collapseEdge to a position
 passes the collapse parameter to the callbacks

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 31b8483..9352083 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -214,7 +214,7 @@ Vertex MutationManager::collapseEdge(Edge e, Vector3 newVertexPosition) {
     VertexData<Vector3>& pos = geometry->vertexPositions;
     Vector3 posTail = pos[e.halfedge().tailVertex()];
     Vector3 posTip = pos[e.halfedge().tipVertex()];
-    double tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
+    tCollapse = pointLineSegmentNeaestLocation(newVertexPosition, posTail, posTip);
   }
 
   return collapseEdge(e, tCollapse, newVertexPosition);
-- 
2.43.0


From 8da6af70bad843c745aeadaf69a026fd092271e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 125/137] fix: removePolicy also removes the policy from the
 face split list

---
 src/surface/mutation_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 9352083..8f59763 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -393,6 +393,7 @@ void MutationManager::removePolicy(const MutationPolicyHandle& toRemove) {
   removeFromVector(edgeFlipPolicies, toRemove.policy);
   removeFromVector(edgeSplitPolicies, toRemove.policy);
   removeFromVector(edgeCollapsePolicies, toRemove.policy);
+  removeFromVector(faceSplitPolicies, toRemove.policy);
 
   // deletion happens here
   removeUniquePtrFromVector(allPolicies, toRemove.policy);
-- 
2.43.0


From cc28a64dae71d93347f1d5de25c746e6272991aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 126/137] fix: MutationManager::flipEdge undoes its test flip
 before calling the callbacks

---
 src/surface/mutation_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 8f59763..6d38b0b 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -120,8 +120,11 @@ bool MutationManager::flipEdge(Edge e) {
     return false;
   }
 
-  // Undo the test flip
-  mesh.flip(e);
+  // Undo the test flip (a flip rotates the edge by a quarter turn, so it takes three more to get back; two flips would
+  // exchange the two halfedges of the edge, and its faces)
+  for (int i = 0; i < 3; i++) {
+    mesh.flip(e);
+  }
 
   // Invoke before callbacks
   for (EdgeFlipPolicy* policy : edgeFlipPolicies) {
-- 
2.43.0


From 392a64c58a3e8f662fa57cba32d1a968626f4174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 127/137] fix: adjustEdgeLengths accepts a negative (relative)
 target edge length

---
 src/surface/remeshing.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index fa73e07..586d7c1 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -11,18 +11,23 @@ void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, RemeshOptio
   return remesh(mesh, geom, mm, options);
 }
 
-void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm, RemeshOptions options) {
+namespace {
+// A negative target length is relative to the mean edge length of the mesh
+void resolveTargetEdgeLength(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, RemeshOptions& options) {
   if (options.targetEdgeLength < 0) {
     double meanLength = 0;
-    geom.requireEdgeLengths();
     for (Edge e : mesh.edges()) {
-      meanLength += geom.edgeLengths[e];
+      meanLength += geom.edgeLength(e);
     }
-    geom.unrequireEdgeLengths();
     meanLength /= mesh.nEdges();
 
-    options.targetEdgeLength = abs(options.targetEdgeLength * meanLength);
+    options.targetEdgeLength = std::abs(options.targetEdgeLength * meanLength);
   }
+}
+} // namespace
+
+void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm, RemeshOptions options) {
+  resolveTargetEdgeLength(mesh, geom, options);
 
   bool doConnectivityChanges = true;
 
@@ -364,6 +369,8 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
 
 bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationManager& mm,
                        RemeshOptions options) {
+  resolveTargetEdgeLength(mesh, geom, options);
+
   geom.requireVertexDualAreas();
   geom.requireVertexMeanCurvatures();
 
-- 
2.43.0


From 76d47126d965217d32558ffc1e25848a8082073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 128/137] fix: remesh updates the curvatures between iterations

---
 src/surface/remeshing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index 586d7c1..79f3a0b 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -33,6 +33,7 @@ void remesh(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, MutationMan
 
   for (size_t iIt = 0; iIt < options.maxIterations; iIt++) {
     if (doConnectivityChanges) {
+      if (iIt > 0) geom.refreshQuantities(); // the curvatures used below changed in the previous iterations
       doConnectivityChanges = adjustEdgeLengths(mesh, geom, mm, options);
     }
 
-- 
2.43.0


From f099fb60c979832a3e25a7529db349a286481f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 129/137] fix: collapsing an interior edge in adjustEdgeLengths
 does not move the boundary

---
 src/surface/remeshing.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/surface/remeshing.cpp b/src/surface/remeshing.cpp
index 79f3a0b..82598e9 100644
--- a/src/surface/remeshing.cpp
+++ b/src/surface/remeshing.cpp
@@ -151,6 +151,17 @@ inline bool checkFoldover(Vector3 a, Vector3 b, Vector3 c, Vector3 x, double ang
   return diamondAngle(a, b, c, x) < angle;
 }
 
+// Where the vertex goes when an edge is collapsed: the midpoint, except that collapsing an interior edge does not move
+// the boundary
+inline Vector3 collapsePosition(SurfaceMesh& mesh, VertexPositionGeometry& geom, Edge e) {
+  if (!e.isBoundary()) {
+    for (Vertex v : e.adjacentVertices()) {
+      if (v.isBoundary()) return geom.vertexPositions[v];
+    }
+  }
+  return edgeMidpoint(mesh, geom, e);
+}
+
 bool shouldCollapse(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, Edge e) {
   std::vector<Halfedge> edgesToCheck;
   Vertex v1 = e.halfedge().vertex();
@@ -171,7 +182,7 @@ bool shouldCollapse(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, Edg
   }
 
   // see if the point that would form after a collapse would cause a major foldover with surrounding edges
-  Vector3 midpoint = edgeMidpoint(mesh, geom, e);
+  Vector3 newPos = collapsePosition(mesh, geom, e);
   for (Halfedge he0 : edgesToCheck) {
     Halfedge heT = he0.twin();
     Vertex v1 = heT.tailVertex();
@@ -180,7 +191,7 @@ bool shouldCollapse(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom, Edg
     Vector3 a = geom.vertexPositions[v1];
     Vector3 b = geom.vertexPositions[v2];
     Vector3 c = geom.vertexPositions[v3];
-    if (checkFoldover(a, b, c, midpoint, 2)) {
+    if (checkFoldover(a, b, c, newPos, 2)) {
       return false;
     }
   }
@@ -416,7 +427,7 @@ bool adjustEdgeLengths(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geom,
     double threshold =
         (useCurvatureAdaptation) ? findMeanTargetL(mesh, geom, e, flatLength, curvatureAdaptation) : flatLength;
     if (geom.edgeLength(e) < threshold * 0.5) {
-      Vector3 newPos = edgeMidpoint(mesh, geom, e);
+      Vector3 newPos = collapsePosition(mesh, geom, e);
       if (shouldCollapse(mesh, geom, e)) {
         Vertex v = mm.collapseEdge(e, newPos);
         if (v != Vertex()) {
-- 
2.43.0


From 16f1fe1261f2346b59a8e4606e476bd7868c2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 130/137] fix: quadricErrorSimplify uses current face normals,
 and refreshes the geometry

---
 src/surface/quadric_error_simplification.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/surface/quadric_error_simplification.cpp b/src/surface/quadric_error_simplification.cpp
index 690095a..c7f394f 100644
--- a/src/surface/quadric_error_simplification.cpp
+++ b/src/surface/quadric_error_simplification.cpp
@@ -46,10 +46,8 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
   VertexData<Quadric> Q(mesh, Quadric());
 
-  geo.requireFaceNormals();
-
   for (Face f : mesh.faces()) {
-    Eigen::Vector3d n = toEigen(geo.faceNormals[f]);
+    Eigen::Vector3d n = toEigen(geo.faceNormal(f));
     Eigen::Matrix3d M = n * n.transpose();
     for (Vertex v : f.adjacentVertices()) {
       Eigen::Vector3d q = toEigen(geo.inputVertexPositions[v]);
@@ -109,6 +107,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
   }
 
   mesh.compress();
+  geo.refreshQuantities();
   return;
 }
 
-- 
2.43.0


From 4d959d6969292645cb114b7065fb1f069ad2a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 131/137] fix: quadricErrorSimplify keeps vertices near the
 edge where the quadric is singular

---
 .../surface/quadric_error_simplification.h    |  2 ++
 src/surface/quadric_error_simplification.cpp  | 23 ++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/geometrycentral/surface/quadric_error_simplification.h b/include/geometrycentral/surface/quadric_error_simplification.h
index 4fda48c..0cc1eb2 100644
--- a/include/geometrycentral/surface/quadric_error_simplification.h
+++ b/include/geometrycentral/surface/quadric_error_simplification.h
@@ -17,6 +17,8 @@ public:
   Quadric(const Quadric& Q1, const Quadric& Q2);
   double cost(const Eigen::Vector3d& v);
   Eigen::Vector3d optimalPoint();
+  // The optimal point nearest to p, if it is not unique
+  Eigen::Vector3d optimalPoint(const Eigen::Vector3d& p);
 
   Quadric operator+=(const Quadric& Q);
 
diff --git a/src/surface/quadric_error_simplification.cpp b/src/surface/quadric_error_simplification.cpp
index c7f394f..2a9e8a6 100644
--- a/src/surface/quadric_error_simplification.cpp
+++ b/src/surface/quadric_error_simplification.cpp
@@ -21,6 +21,17 @@ double Quadric::cost(const Eigen::Vector3d& v) { return v.dot(A * v) + 2 * b.dot
 
 Eigen::Vector3d Quadric::optimalPoint() { return -A.colPivHouseholderQr().solve(b); }
 
+Eigen::Vector3d Quadric::optimalPoint(const Eigen::Vector3d& p) {
+  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> eig(A);
+  Eigen::Vector3d r = eig.eigenvectors().transpose() * (A * p + b);
+  double threshold = 1e-6 * eig.eigenvalues().maxCoeff();
+  for (int i = 0; i < 3; i++) {
+    double w = eig.eigenvalues()(i);
+    r(i) = (w > threshold) ? r(i) / w : 0.;
+  }
+  return p - eig.eigenvectors() * r;
+}
+
 Quadric Quadric::operator+=(const Quadric& Q) {
   A += Q.A;
   b += Q.b;
@@ -43,6 +54,12 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
     return ret;
   };
   auto fromEigen = [](Eigen::Vector3d v) -> Vector3 { return Vector3{v(0), v(1), v(2)}; };
+  // (in flat regions many points are optimal)
+  auto midpoint = [&](Edge e) -> Eigen::Vector3d {
+    return toEigen(
+        (geo.inputVertexPositions[e.halfedge().tailVertex()] + geo.inputVertexPositions[e.halfedge().tipVertex()]) /
+        2.);
+  };
 
   VertexData<Quadric> Q(mesh, Quadric());
 
@@ -65,7 +82,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
   for (Edge e : mesh.edges()) {
     Quadric Qe = Q[e.halfedge().tailVertex()] + Q[e.halfedge().tipVertex()];
-    Eigen::Vector3d q = Qe.optimalPoint();
+    Eigen::Vector3d q = Qe.optimalPoint(midpoint(e));
     double cost = Qe.cost(q);
     edgesToCheck.push(std::make_tuple(cost, e));
   }
@@ -87,7 +104,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
     // Get edge quadric
     Quadric Qe(Q[v1], Q[v2]);
-    Eigen::Vector3d q = Qe.optimalPoint();
+    Eigen::Vector3d q = Qe.optimalPoint(midpoint(e));
 
     // If either vertex has been collapsed since the edge was pushed
     // onto the queue, the old cost was wrong. In that case, give up
@@ -100,7 +117,7 @@ void quadricErrorSimplify(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo
 
     for (Edge f : v.adjacentEdges()) {
       Quadric Qf(Q[f.halfedge().tailVertex()], Q[f.halfedge().tipVertex()]);
-      Eigen::Vector3d q = Qf.optimalPoint();
+      Eigen::Vector3d q = Qf.optimalPoint(midpoint(f));
       double cost = Qf.cost(q);
       edgesToCheck.push(std::make_tuple(cost, f));
     }
-- 
2.43.0


From c3a25d052fe7aa5965fa6d56c38983db4cf0c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 132/137] fix: catmullClarkSubdivide uses the Catmull-Clark
 rules, and handles boundaries

---
 src/surface/subdivide.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index adfe0f0..c1aca55 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -101,16 +101,29 @@ void catmullClarkSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& ge
 
   EdgeData<Vector3> splitEdgePositions(mesh);
   for (Edge e : mesh.edges()) {
-    std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
-    splitEdgePositions[e] = (splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 2.;
+    Vector3 midpoint = (pos[e.halfedge().tailVertex()] + pos[e.halfedge().tipVertex()]) / 2.;
+    if (e.isBoundary()) {
+      splitEdgePositions[e] = midpoint;
+    } else {
+      std::array<Face, 2> neigh{e.halfedge().face(), e.halfedge().twin().face()};
+      splitEdgePositions[e] = (2. * midpoint + splitFacePositions[neigh[0]] + splitFacePositions[neigh[1]]) / 4.;
+    }
   }
 
   for (Vertex v : mesh.vertices()) {
     double D = (double)v.degree();
     Vector3 S = geo.inputVertexPositions[v];
-    Vector3 R = Vector3::zero();
-    for (Edge e : v.adjacentEdges()) {
-      R += splitEdgePositions[e] / D;
+    if (v.isBoundary()) {
+      // on the boundary, the rule for cubic splines
+      newPositions[v] = .75 * S;
+      for (Edge e : v.adjacentEdges()) {
+        if (e.isBoundary()) newPositions[v] += .125 * pos[e.otherVertex(v)];
+      }
+      continue;
+    }
+    Vector3 R = Vector3::zero(); // average of the edge midpoints
+    for (Vertex w : v.adjacentVertices()) {
+      R += (S + pos[w]) / (2. * D);
     }
     Vector3 Q = Vector3::zero();
     for (Face f : v.adjacentFaces()) {
-- 
2.43.0


From 77d3d0df1ed86b509060926bed37a67af9ebeb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 133/137] fix: loopSubdivide uses the boundary rule at boundary
 vertices

---
 src/surface/subdivide.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index c1aca55..5c8bbd2 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -207,6 +207,14 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   // Compute new positions for original vertices
   VertexData<Vector3> newPositions(mesh);
   for (Vertex v : mesh.vertices()) {
+    if (v.isBoundary()) {
+      // on the boundary, the rule for cubic splines
+      newPositions[v] = .75 * pos[v];
+      for (Edge e : v.adjacentEdges()) {
+        if (e.isBoundary()) newPositions[v] += .125 * pos[e.otherVertex(v)];
+      }
+      continue;
+    }
     double n = (double)v.degree();
     double u = (n == 3) ? 3. / 16. : 3. / (8. * n);
     newPositions[v] = (1 - n * u) * pos[v];
-- 
2.43.0


From 5d6d326145ab4fc2eb563bc2ab68f0910300bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:17 +0000
Subject: [PATCH 134/137] fix: loopSubdivide flips edges through the mutation
 manager

---
 src/surface/subdivide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/subdivide.cpp b/src/surface/subdivide.cpp
index 5c8bbd2..10a8cc2 100644
--- a/src/surface/subdivide.cpp
+++ b/src/surface/subdivide.cpp
@@ -264,7 +264,7 @@ void loopSubdivide(ManifoldSurfaceMesh& mesh, VertexPositionGeometry& geo, Mutat
   }
 
   for (Edge e : toFlip) {
-    mesh.flip(e);
+    mm.flipEdge(e);
   }
 
   mesh.compress();
-- 
2.43.0


From 233186f373db73dc86fdab7e79b4adc63c971fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 135/137] fix: MutationManager::repositionVertex without a
 geometry

---
 src/surface/mutation_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index 6d38b0b..f86efa9 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -103,7 +103,9 @@ bool MutationManager::repositionVertex(Vertex vert, Vector3 offset) {
     policy->beforeVertexReposition(vert, offset);
   }
 
-  geometry->vertexPositions[vert] += offset;
+  if (geometry) {
+    geometry->vertexPositions[vert] += offset;
+  }
   return true;
 }
 
-- 
2.43.0


From 752480b8129b5ff6b33c767c7d6dcced5b184172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 136/137] fix: collapseEdgeTriangular refuses edges at vertices
 of degree < 3 like other edges, instead of throwing

---
 src/surface/manifold_surface_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/manifold_surface_mesh.cpp b/src/surface/manifold_surface_mesh.cpp
index 85fb971..9ca0fa2 100644
--- a/src/surface/manifold_surface_mesh.cpp
+++ b/src/surface/manifold_surface_mesh.cpp
@@ -1288,8 +1288,8 @@ Vertex ManifoldSurfaceMesh::collapseEdgeTriangular(Edge e) {
     }
 
     else {
-      // return heA0.vertex();
-      throw std::runtime_error("Collapsing interior vertices with degree < 3 is not supported.");
+      // collapsing interior vertices with degree < 3 is not supported
+      return Vertex();
     }
   }
 
-- 
2.43.0


From e0098ca7f4515e6cda7df8ad3900bdd53307772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 137/137] fix: MutationManager::flipEdge can always undo its
 test flip

---
 src/surface/mutation_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/mutation_manager.cpp b/src/surface/mutation_manager.cpp
index f86efa9..692b2e2 100644
--- a/src/surface/mutation_manager.cpp
+++ b/src/surface/mutation_manager.cpp
@@ -125,7 +125,7 @@ bool MutationManager::flipEdge(Edge e) {
   // Undo the test flip (a flip rotates the edge by a quarter turn, so it takes three more to get back; two flips would
   // exchange the two halfedges of the edge, and its faces)
   for (int i = 0; i < 3; i++) {
-    mesh.flip(e);
+    mesh.flip(e, false);
   }
 
   // Invoke before callbacks
-- 
2.43.0

