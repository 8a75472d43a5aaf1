From ffc49fb17b4eb781a1dfaf056cd795ee1bbef1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:50 +0000
Subject: [PATCH 01/28] fix: do not keep a reference into the half-edge vector
 while it grows

---
 src/tinymesh/core/mesh.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index db11b9c..aa7c615 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -300,14 +300,15 @@ void Mesh::construct() {
     // Construct new faces (possibly non-triangle) for each boundary components
     const auto numHalfedges = static_cast<int>(halfedges_.size());
     for (int i = 0; i < numHalfedges; i++) {
-        auto &he = halfedges_[i];
-        Assertion(he.get() != nullptr, "Null halfedge detected!");
+        // Not a reference to the vector element, because "addHalfedge" below may reallocate the vector
+        Halfedge *he = halfedges_[i].get();
+        Assertion(he != nullptr, "Null halfedge detected!");
         if (he->rev_ == nullptr) {
             auto face = new Face();
             addFace(face);
 
             std::vector<Halfedge *> boundaryHalfedges;
-            Halfedge *it = he.get();
+            Halfedge *it = he;
             do {
                 auto rev = new Halfedge();
                 addHalfedge(rev);
@@ -324,11 +325,11 @@ void Mesh::construct() {
 
                 // Advance it to the next halfedge along the current boundary loop
                 it = it->next_;
-                while (it != he.get() && it->rev_ != nullptr) {
+                while (it != he && it->rev_ != nullptr) {
                     it = it->rev_;
                     it = it->next_;
                 }
-            } while (it != he.get());
+            } while (it != he);
 
             face->halfedge_ = boundaryHalfedges.front();
 
-- 
2.43.0


From bd9626e4a317a7b50c1b5bf8fcd30a8c9c9a8857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:31 +0000
Subject: [PATCH 02/28] fix: forget the old index list when a mesh is loaded or
 constructed again

Loading a *.ply file or constructing from arrays appended to the indices of
the previous contents, so a reused mesh mixed the old faces with the new ones.
---
 src/tinymesh/core/mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index aa7c615..725d408 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -71,6 +71,7 @@ void Mesh::load(const std::string &filename) {
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     // Load new mesh
     const std::string ext = fs::path(filename.c_str()).extension().string();
@@ -90,6 +91,7 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     vertices_.clear();
     halfedges_.clear();
     faces_.clear();
+    indices_.clear();
 
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
-- 
2.43.0


From db0801416e233d436b0e416b552c95cb7ddac183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:31 +0000
Subject: [PATCH 03/28] fix: refuse to flip an edge on the boundary

The flip relinked the hole face like a triangle and left the mesh corrupted.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 725d408..509414a 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -874,6 +874,11 @@ bool Mesh::flipHE(Halfedge *he) {
         Error("Flip is called boundary halfedge!");
     }
 
+    // An edge on the boundary has only one triangle
+    if (he->isBoundary_ || rev->isBoundary_) {
+        return false;
+    }
+
     Vertex *u0 = he->src();
     Vertex *u1 = he->prev()->src();
     Vertex *u2 = rev->src();
-- 
2.43.0


From dd840177268f75881b875946a8cbda42c08c128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:31 +0000
Subject: [PATCH 04/28] fix: do not remove a boundary vertex by collapsing an
 inner edge

Collapsing an inner edge between two boundary vertices pinched the boundary
into a non-manifold vertex, and any other collapse onto an inner vertex moved
the boundary.
---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 509414a..e4b3559 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -737,6 +737,11 @@ bool Mesh::collapseHE(Halfedge *he) {
         return false;
     }
 
+    // The vertex to be removed must not be on the boundary
+    if (v2->isBoundary()) {
+        return false;
+    }
+
     // Collect neighboring vertices of the one to be removed
     std::vector<Vertex *> neighbors;
     for (auto it = v2->he_begin(); it != v2->he_end(); ++it) {
-- 
2.43.0


From e9961c2fb30357bec991f1d5a393e9a8ceb794ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:49 +0000
Subject: [PATCH 05/28] fix: keep the mesh intact when splitting an edge runs
 out of memory

The split relinked the existing half-edges before the new elements were stored
in the lists. Now all memory is obtained before anything is changed, and
nothing leaks.
---
 src/tinymesh/core/mesh.cpp | 55 +++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index e4b3559..e691b12 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -2,6 +2,7 @@
 #include "mesh.h"
 
 #include <cstring>
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <set>
@@ -579,13 +580,29 @@ bool Mesh::splitHE(Halfedge *he) {
         return false;
     }
 
+    // Get all the memory before anything is relinked, so that the mesh is kept as is when it runs out
+    const auto prepare = [](auto &list, size_t n) {
+        if (list.capacity() < list.size() + n) {
+            list.reserve(std::max(list.size() + n, list.size() * 2));
+        }
+    };
+    prepare(vertices_, 1);
+    prepare(halfedges_, 6);
+    prepare(faces_, 2);
+
+    std::shared_ptr<Halfedge> newHalfedges[6];
+    for (auto &h : newHalfedges) {
+        h = std::make_shared<Halfedge>();
+    }
+    std::shared_ptr<Face> newFaces[2] = { std::make_shared<Face>(), std::make_shared<Face>() };
+
     // Prepare halfedge / face
-    auto he_new = new Halfedge();
-    auto he01 = new Halfedge();
-    auto he02 = new Halfedge();
-    auto rev_new = new Halfedge();
-    auto he11 = new Halfedge();
-    auto he12 = new Halfedge();
+    auto he_new = newHalfedges[0].get();
+    auto rev_new = newHalfedges[1].get();
+    auto he01 = newHalfedges[2].get();
+    auto he02 = newHalfedges[3].get();
+    auto he11 = newHalfedges[4].get();
+    auto he12 = newHalfedges[5].get();
 
     auto he0 = he->next_;
     auto he1 = he0->next_;
@@ -595,15 +612,16 @@ bool Mesh::splitHE(Halfedge *he) {
     auto f0 = he->face();
     auto f1 = rev->face();
 
-    auto f0_new = new Face();
-    auto f1_new = new Face();
+    auto f0_new = newFaces[0].get();
+    auto f1_new = newFaces[1].get();
 
     auto v2 = he1->src_;
     auto v3 = he3->src_;
 
     // Prepare new vertex
     const Vec3 newPos = 0.5 * (he->src()->pos() + he->dst()->pos());
-    auto v_new = new Vertex(newPos);
+    auto newVertex = std::make_shared<Vertex>(newPos);
+    auto v_new = newVertex.get();
 
     // Update next half-edges
     he->next_ = he0;
@@ -681,15 +699,16 @@ bool Mesh::splitHE(Halfedge *he) {
     f1_new->halfedge_ = rev_new;
 
     // Add new components to the list
-    addFace(f0_new);
-    addFace(f1_new);
-    addVertex(v_new);
-    addHalfedge(he_new);
-    addHalfedge(rev_new);
-    addHalfedge(he01);
-    addHalfedge(he02);
-    addHalfedge(he11);
-    addHalfedge(he12);
+    for (auto &f : newFaces) {
+        f->index_ = static_cast<int>(faces_.size());
+        faces_.push_back(std::move(f));
+    }
+    newVertex->index_ = static_cast<int>(vertices_.size());
+    vertices_.push_back(std::move(newVertex));
+    for (auto &h : newHalfedges) {
+        h->index_ = static_cast<int>(halfedges_.size());
+        halfedges_.push_back(std::move(h));
+    }
 
     return true;
 }
-- 
2.43.0


From 546e857bbc158cd9cd9b9fa307daebcb76bc5421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:05 +0000
Subject: [PATCH 06/28] fix: deliver exceptions raised inside parallel loops to
 the caller

An exception that leaves the body of an OpenMP loop ends the process. The
loops now keep the first exception and throw it again after the loop.
---
 src/tinymesh/core/openmp.h          | 27 ++++++++++++++++++++++
 src/tinymesh/filters/denoise.cpp    | 36 ++++++++++++++++++++++++-----
 src/tinymesh/filters/smooth.cpp     | 24 +++++++++++++++----
 src/tinymesh/restore/completion.cpp |  6 ++++-
 4 files changed, 82 insertions(+), 11 deletions(-)

diff --git a/src/tinymesh/core/openmp.h b/src/tinymesh/core/openmp.h
index 0120fcf..7de468b 100644
--- a/src/tinymesh/core/openmp.h
+++ b/src/tinymesh/core/openmp.h
@@ -35,4 +35,31 @@
 #define omp_unlock(lock)
 #endif
 
+#include <exception>
+
+/**
+ * Carries an exception out of a parallel loop
+ * @details An exception must not leave the body of a parallel loop. The body catches everything and calls "capture",
+ * and the first exception is thrown again with "rethrow" after the loop.
+ */
+class LoopError {
+public:
+    void capture() {
+        omp_critical {
+            if (!error) {
+                error = std::current_exception();
+            }
+        }
+    }
+
+    void rethrow() const {
+        if (error) {
+            std::rethrow_exception(error);
+        }
+    }
+
+private:
+    std::exception_ptr error = nullptr;
+};
+
 #endif  // COMMON_OPENMP_H
diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index c335a53..f477d83 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -48,7 +48,8 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
         std::vector<Vec3> normals(nf);
         std::vector<Vec3> centroids(nf);
         std::vector<double> areas(nf);
-        omp_parallel_for(int i = 0; i < nf; i++) {
+        LoopError facesError;
+        omp_parallel_for(int i = 0; i < nf; i++) try {
             Face *f = mesh.face(i);
             std::vector<Vec3> vs;
             for (auto vit = f->v_begin(); vit != f->v_end(); ++vit) {
@@ -63,11 +64,15 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
             areas[i] = 0.5 * length(outer);
+        } catch (...) {
+            facesError.capture();
         }
+        facesError.rethrow();
 
         // Filter
         std::vector<Vec3> newNormals(nf);
-        omp_parallel_for(int i = 0; i < nf; i++) {
+        LoopError normalsError;
+        omp_parallel_for(int i = 0; i < nf; i++) try {
             Face *f = mesh.face(i);
             Vec3 norm(0.0);
             for (auto fit = f->f_begin(); fit != f->f_end(); ++fit) {
@@ -81,11 +86,15 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
             if (l != 0.0) {
                 newNormals[i] = norm / l;
             }
+        } catch (...) {
+            normalsError.capture();
         }
+        normalsError.rethrow();
 
         // Update vertex positions
         const int nv = (int)mesh.numVertices();
-        omp_parallel_for(int i = 0; i < nv; i++) {
+        LoopError verticesError;
+        omp_parallel_for(int i = 0; i < nv; i++) try {
             Vertex *v = mesh.vertex(i);
 
             double sumArea = 0.0;
@@ -97,7 +106,10 @@ void denoiseNormalGaussian(Mesh &mesh, double sigma, int iterations) {
             }
             incr /= sumArea;
             v->setPos(v->pos() + incr);
+        } catch (...) {
+            verticesError.capture();
         }
+        verticesError.rethrow();
     }
 }
 
@@ -114,7 +126,8 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
         std::vector<Vec3> normals(nf);
         std::vector<Vec3> centroids(nf);
         std::vector<double> areas(nf);
-        omp_parallel_for(int i = 0; i < nf; i++) {
+        LoopError facesError;
+        omp_parallel_for(int i = 0; i < nf; i++) try {
             Face *f = mesh.face(i);
             std::vector<Vec3> vs;
             for (auto vit = f->v_begin(); vit != f->v_end(); ++vit) {
@@ -129,11 +142,15 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
             normals[i] = normalize(outer);
             centroids[i] = (vs[0] + vs[1] + vs[2]) / 3.0;
             areas[i] = 0.5 * length(outer);
+        } catch (...) {
+            facesError.capture();
         }
+        facesError.rethrow();
 
         // Filter
         std::vector<Vec3> newNormals(nf);
-        omp_parallel_for(int i = 0; i < nf; i++) {
+        LoopError normalsError;
+        omp_parallel_for(int i = 0; i < nf; i++) try {
             Face *f = mesh.face(i);
             Vec3 norm(0.0);
             for (auto fit = f->f_begin(); fit != f->f_end(); ++fit) {
@@ -151,11 +168,15 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
             if (l != 0.0) {
                 newNormals[i] = norm / l;
             }
+        } catch (...) {
+            normalsError.capture();
         }
+        normalsError.rethrow();
 
         // Update vertex positions
         const int nv = (int)mesh.numVertices();
-        omp_parallel_for(int i = 0; i < nv; i++) {
+        LoopError verticesError;
+        omp_parallel_for(int i = 0; i < nv; i++) try {
             Vertex *v = mesh.vertex(i);
 
             double sumArea = 0.0;
@@ -167,7 +188,10 @@ void denoiseNormalBilateral(Mesh &mesh, double sigmaCenter, double sigmaNormal,
             }
             incr /= sumArea;
             v->setPos(v->pos() + incr);
+        } catch (...) {
+            verticesError.capture();
         }
+        verticesError.rethrow();
     }
 }
 
diff --git a/src/tinymesh/filters/smooth.cpp b/src/tinymesh/filters/smooth.cpp
index 65b5b43..c31d235 100644
--- a/src/tinymesh/filters/smooth.cpp
+++ b/src/tinymesh/filters/smooth.cpp
@@ -27,7 +27,8 @@ void smoothLaplacian(Mesh &mesh, double epsilon, bool cotangentWeight, int itera
         std::vector<Vec3> centroids(nv);
 
         // Compute centroids and tangent planes
-        omp_parallel_for(int i = 0; i < nv; i++) {
+        LoopError centroidsError;
+        omp_parallel_for(int i = 0; i < nv; i++) try {
             Vertex *v = mesh.vertex(i);
             std::vector<Vec3> pts;
             Vec3 cent(0.0);
@@ -41,10 +42,14 @@ void smoothLaplacian(Mesh &mesh, double epsilon, bool cotangentWeight, int itera
                 sumWgt += weight;
             }
             centroids[i] = cent / sumWgt;
+        } catch (...) {
+            centroidsError.capture();
         }
+        centroidsError.rethrow();
 
         // Update vertex positions
-        omp_parallel_for(int i = 0; i < (int)mesh.numVertices(); i++) {
+        LoopError updateError;
+        omp_parallel_for(int i = 0; i < (int)mesh.numVertices(); i++) try {
             Vertex *v = mesh.vertex(i);
             if (v->isBoundary() || v->isLocked()) {
                 continue;
@@ -54,7 +59,10 @@ void smoothLaplacian(Mesh &mesh, double epsilon, bool cotangentWeight, int itera
             const Vec3 e = centroids[i] - pt;
             const Vec3 newPos = (1.0 - epsilon) * pt + epsilon * (pt + e);
             v->setPos(newPos);
+        } catch (...) {
+            updateError.capture();
         }
+        updateError.rethrow();
     }
 }
 
@@ -65,7 +73,8 @@ void smoothTaubin(Mesh &mesh, double shrink, double inflate, int iterations) {
         std::vector<Vec3> centroids(nv);
 
         // Compute centroids and tangent planes
-        omp_parallel_for(int i = 0; i < nv; i++) {
+        LoopError centroidsError;
+        omp_parallel_for(int i = 0; i < nv; i++) try {
             Vertex *v = mesh.vertex(i);
 
             // Collect surrounding vertices
@@ -80,11 +89,15 @@ void smoothTaubin(Mesh &mesh, double shrink, double inflate, int iterations) {
                 cent += pts[i];
             }
             centroids[i] = cent / (double)pts.size();
+        } catch (...) {
+            centroidsError.capture();
         }
+        centroidsError.rethrow();
 
         // Update vertex positions
         const double epsilon = it % 2 == 0 ? shrink : -inflate;
-        omp_parallel_for(int i = 0; i < (int)mesh.numVertices(); i++) {
+        LoopError updateError;
+        omp_parallel_for(int i = 0; i < (int)mesh.numVertices(); i++) try {
             Vertex *v = mesh.vertex(i);
             if (v->isBoundary() || v->isLocked()) {
                 continue;
@@ -94,7 +107,10 @@ void smoothTaubin(Mesh &mesh, double shrink, double inflate, int iterations) {
             const Vec3 e = centroids[i] - pt;
             const Vec3 newPos = (1.0 - epsilon) * v->pos() + epsilon * (pt + e);
             v->setPos(newPos);
+        } catch (...) {
+            updateError.capture();
         }
+        updateError.rethrow();
     }
 }
 
diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 869f815..abb48de 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -278,7 +278,8 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
         // 4. Compute patch descriptors
         std::vector<EigenVector> descriptors(N);
-        omp_parallel_for(int i = 0; i < N; i++) {
+        LoopError descriptorsError;
+        omp_parallel_for(int i = 0; i < N; i++) try {
             EigenVector hksMean(hksDims);
             EigenVector hksSigma(hksDims);
 
@@ -300,7 +301,10 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
             descriptors[i].resize(hksMean.rows() + hksSigma.rows());
             descriptors[i] << hksMean, hksSigma;
+        } catch (...) {
+            descriptorsError.capture();
         }
+        descriptorsError.rethrow();
 
         // 5. Collect candidate patches
         const int nCands = std::max(10, (int)(0.001 * nSrc));
-- 
2.43.0


From d0a324172c40401775b334f5d0fb1915cf75aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:03 +0000
Subject: [PATCH 07/28] fix: do not use the result of a failed factorization in
 the feature line field

---
 src/tinymesh/ops/features.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/ops/features.cpp b/src/tinymesh/ops/features.cpp
index 39c8372..13a5227 100644
--- a/src/tinymesh/ops/features.cpp
+++ b/src/tinymesh/ops/features.cpp
@@ -719,7 +719,10 @@ std::tuple<EigenMatrix, EigenVector> getFeatureLineFieldWithFlags(const Mesh &me
 
     EigenMatrix bb = -SS * xxRV;
     Eigen::SimplicialLDLT<EigenSparseMatrix> solver(LL);
-    EigenMatrix xx = solver.solve(bb);
+    EigenMatrix xx = EigenMatrix::Zero(countNonRV, 3);
+    if (solver.info() == Eigen::Success) {
+        xx = solver.solve(bb);
+    }
 
     for (auto it : uniqueNonRV) {
         const int i = it.second;
-- 
2.43.0


From 61f3989ee81e97e18ff56002259afd38bb2adcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:18 +0000
Subject: [PATCH 08/28] fix: clear the boundary marks on both sides of a filled
 hole

---
 src/tinymesh/core/completion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 8219f3a..67e27a1 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -69,6 +69,13 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
     new_he1->isBoundary_ = false;
     new_he2->isBoundary_ = false;
 
+    // The opposite halfedges of the filled hole are no longer on the boundary, too.
+    for (Halfedge *he : { new_he0, new_he1, new_he2 }) {
+        if (he->rev_ != nullptr) {
+            he->rev_->isBoundary_ = false;
+        }
+    }
+
     auto new_face = new Face();
     addFace(new_face);
 
-- 
2.43.0


From 446ead79507d10d99b8797d4ac23282470a9d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:41 +0000
Subject: [PATCH 09/28] fix: do not join two vertices twice when filling a hole

---
 src/tinymesh/core/completion.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 67e27a1..72de139 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -106,6 +106,23 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
         count++;
     }
 
+    // Two boundary vertices already joined by an edge outside the hole must not be joined again
+    std::unordered_map<Vertex *, int> boundaryIndex;
+    for (int i = 0; i < n_verts; i++) {
+        boundaryIndex[boundary[i]] = i;
+    }
+    Eigen::MatrixXi joined(n_verts, n_verts);
+    joined.setZero();
+    for (int i = 0; i < n_verts; i++) {
+        for (auto it = boundary[i]->v_begin(); it != boundary[i]->v_end(); ++it) {
+            const auto found = boundaryIndex.find(it.ptr());
+            if (found != boundaryIndex.end()) {
+                joined(i, found->second) = 1;
+            }
+        }
+    }
+    joined(0, n_verts - 1) = 0;
+
     Eigen::MatrixXd Warea(n_verts, n_verts);
     Eigen::MatrixXd Wangle(n_verts, n_verts);
     Eigen::MatrixXi O(n_verts, n_verts);
@@ -116,7 +133,7 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
         Warea(i, i + 1) = 0.0;
         Wangle(i, i + 1) = 0.0;
         O(i, i + 1) = -1;
-        if (i < n_verts - 2) {
+        if (i < n_verts - 2 && joined(i, i + 2) == 0) {
             const Vec3 v0 = boundary[i]->pos();
             const Vec3 v1 = boundary[i + 1]->pos();
             const Vec3 v2 = boundary[i + 2]->pos();
@@ -138,7 +155,15 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
     for (int j = 3; j < n_verts; j++) {
         for (int i = 0; i < n_verts - j; i++) {
             const int k = i + j;
+            if (joined(i, k) != 0) {
+                continue;
+            }
+
             for (int m = i + 1; m < k; m++) {
+                if ((m - i > 1 && O(i, m) < 0) || (k - m > 1 && O(m, k) < 0)) {
+                    continue;
+                }
+
                 const Vec3 v0 = boundary[i]->pos();
                 const Vec3 v1 = boundary[m]->pos();
                 const Vec3 v2 = boundary[k]->pos();
@@ -176,6 +201,10 @@ void Mesh::holeFillMinDihedral_(Face *face, double dihedralBound) {
         }
     }
 
+    if (O(0, n_verts - 1) < 0) {
+        Error("Hole cannot be filled without joining the same vertices twice!");
+    }
+
     std::queue<E> que;
     std::vector<T> tris;
 
-- 
2.43.0


From d786d2f662e8b126829df17de01f044532f34281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:45 +0000
Subject: [PATCH 10/28] fix: never merge a front vertex into a locked one when
 filling a hole

---
 src/tinymesh/core/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 72de139..918fb1f 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -297,7 +297,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         for (int i = 0; i < N; i++) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
-            if (!face_vs[i]->isLocked() && !face_vs[i]->isLocked() &&
+            if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
                 length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
-- 
2.43.0


From 86c2add90a26757b84d7569aa4363c214d377dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:33 +0000
Subject: [PATCH 11/28] fix: visit the vertices inside a filled hole in an
 order independent of their addresses

---
 src/tinymesh/core/completion.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 918fb1f..77b8ae2 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -558,6 +558,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Correct internal vertices
     std::unordered_set<Vertex *> insideVerts;
+    std::vector<Vertex *> insideOrder;  // Visiting order, which does not depend on addresses of the vertices
     std::queue<Vertex *> que;
     for (auto it = face->v_begin(); it != face->v_end(); ++it) {
         if (!it->isLocked()) {
@@ -573,6 +574,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             continue;
         }
         insideVerts.insert(v);
+        insideOrder.push_back(v);
 
         for (auto it = v->v_begin(); it != v->v_end(); ++it) {
             if (!it->isLocked() && insideVerts.count(it.ptr()) == 0) {
@@ -583,12 +585,12 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Smooth vertex normals
     std::unordered_map<Vertex *, Vec3> newNormals;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         newNormals[v] = v->normal();
     }
 
     for (int kIter = 0; kIter < 1000; kIter++) {
-        for (Vertex *v : insideVerts) {
+        for (Vertex *v : insideOrder) {
             Vec3 nn = Vec3(0.0);
             double sumWgt = 0.0;
             for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -604,7 +606,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Compute face normals
     std::unordered_set<Face *> insideFaces;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         for (auto it = v->f_begin(); it != v->f_end(); ++it) {
             Face *f = it.ptr();
             bool inside = true;
@@ -637,7 +639,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
     // Compute rotated gradients
     std::unordered_map<Vertex *, Vec3> rotGrads;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         Vec3 sumGrad(0.0);
         int count = 0;
         for (auto it = v->he_begin(); it != v->he_end(); ++it) {
@@ -673,7 +675,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     std::unordered_map<Vertex *, uint32_t> uniqueOuter;
     int countInner = 0;
     int countOuter = 0;
-    for (Vertex *v : insideVerts) {
+    for (Vertex *v : insideOrder) {
         if (uniqueInner.count(v) == 0) {
             uniqueInner[v] = countInner;
             countInner++;
-- 
2.43.0


From 49cfe8624b02e36aad6f6939c977455ca1f016c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:02 +0000
Subject: [PATCH 12/28] fix: keep the mesh valid and stop when the front of a
 hole does not close

---
 src/tinymesh/core/completion.cpp | 52 ++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index 77b8ae2..d9f9ee8 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -274,8 +274,39 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
         it->lock();
     }
 
+    // Whether two vertices are joined by an edge
+    const auto isJoined = [](Vertex *a, Vertex *b) {
+        for (auto it = a->v_begin(); it != a->v_end(); ++it) {
+            if (it.ptr() == b) {
+                return true;
+            }
+        }
+        return false;
+    };
+
+    // Whether an edge in front of the hole can be removed by merging its end points
+    const auto isMergeable = [&](Halfedge *he) {
+        Halfedge *he1 = he->rev_->next_;
+        Halfedge *he2 = he1->next_;
+        if (he1->isBoundary_ || he2->isBoundary_) {
+            return false;
+        }
+
+        int common = 0;
+        for (auto it = he->src()->v_begin(); it != he->src()->v_end(); ++it) {
+            if (isJoined(it.ptr(), he->dst())) {
+                common++;
+            }
+        }
+        return common == 1;
+    };
+
+    // Vertices on the last front
+    std::vector<Vertex *> lastFront;
+
     // Initial Hole filling by advancing front
-    while (true) {
+    const size_t maxSteps = 100 + boundary.size() * boundary.size();
+    for (size_t step = 0;; step++) {
         // Collect boundary vertices
         std::vector<Vertex *> face_vs;
         std::vector<Halfedge *> face_hes;
@@ -289,6 +320,14 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
                 it->isBoundary_ = false;
                 it->rev_->isBoundary_ = false;
             }
+            lastFront = face_vs;
+            break;
+        }
+
+        // The front does not get closed
+        if (step >= maxSteps) {
+            holeFillMinDihedral_(face);
+            lastFront = face_vs;
             break;
         }
 
@@ -298,7 +337,7 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             const int prev = (i - 1 + N) % N;
             const int next = (i + 1) % N;
             if (!face_vs[i]->isLocked() && !face_vs[next]->isLocked() &&
-                length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen) {
+                length(face_vs[i]->pos() - face_vs[next]->pos()) < 0.5 * avgEdgeLen && isMergeable(face_hes[i])) {
                 Halfedge *he = face_hes[i];
                 std::vector<Halfedge *> v_hes;
                 for (auto it = face_vs[i]->he_begin(); it != face_vs[i]->he_end(); ++it) {
@@ -390,7 +429,8 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
 
         // Put new triangles
         std::vector<Face *> newFaces;
-        if (minAngle <= Pi * (75.0 / 180.0)) {
+        if (minAngle <= Pi * (75.0 / 180.0) &&
+            !isJoined(face_vs[(minIndex - 1 + N) % N], face_vs[(minIndex + 1) % N])) {
             const int prev = (minIndex - 1 + N) % N;
             const int next = (minIndex + 1) % N;
 
@@ -560,9 +600,9 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
     std::unordered_set<Vertex *> insideVerts;
     std::vector<Vertex *> insideOrder;  // Visiting order, which does not depend on addresses of the vertices
     std::queue<Vertex *> que;
-    for (auto it = face->v_begin(); it != face->v_end(); ++it) {
-        if (!it->isLocked()) {
-            que.push(it.ptr());
+    for (Vertex *v : lastFront) {
+        if (!v->isLocked()) {
+            que.push(v);
             break;
         }
     }
-- 
2.43.0


From 228ef74b6879fc9f75d5de00e4b6faf7ebea6dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:48 +0000
Subject: [PATCH 13/28] fix: never let the progress bar count beyond its total

---
 src/tinymesh/core/progress.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 830eacf..4e88a2e 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -5,6 +5,7 @@
 #ifndef PROGRESS_H
 #define PROGRESS_H
 
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -34,7 +35,7 @@ public:
     }
 
     void step(int n = 1) {
-        m_step += n;
+        m_step = std::min(m_step + n, m_total);
         auto now = std::chrono::system_clock::now();
 
         const double percent = 100.0 * m_step / m_total;
-- 
2.43.0


From 8ef33d39159ad7ded69d3fabddcb36557be97bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:10 +0000
Subject: [PATCH 14/28] fix: keep the original vertices when repairing a
 completed hole

---
 src/tinymesh/restore/completion.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index abb48de..9ac4706 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -581,6 +581,11 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                     const Vec3 vr = it->rev()->next()->dst()->pos();
                     const double al = angle(v0, vl, v1);
                     const double ar = angle(v0, vr, v1);
+                    if (it->src()->isLocked() || it->dst()->isLocked()) {
+                        // Original vertices must not be removed
+                        continue;
+                    }
+
                     if (al < Pi / 10.0 || ar < Pi / 10.0) {
                         if (mesh.collapseHE(it.ptr())) {
                             isRepaired = true;
@@ -603,7 +608,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
 
                 Vertex *v = mesh.vertex(tgtId);
                 for (auto it = v->f_begin(); it != v->f_end(); ++it) {
-                    if (it->index() < 0) continue;
+                    if (it->index() < 0 || it->isLocked()) continue;
 
                     if (it->area() < 0.01 * avgArea) {
                         if (mesh.collapseFace(it.ptr())) {
-- 
2.43.0


From 057dffdccf06a6ccc03f278622ee958356a64ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:13 +0000
Subject: [PATCH 15/28] fix: collect the faces of a patch in an order
 independent of their addresses

---
 src/tinymesh/restore/completion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 9ac4706..a807f20 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -224,6 +224,7 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 if (visited.count(f) != 0) continue;
 
                 visited.insert(f);
+                patchFaces[i].push_back(f);
                 for (auto it = f->f_begin(); it != f->f_end(); ++it) {
                     if (visited.count(it.ptr()) == 0 && dist + 1 <= patchRadius) {
                         que.push(std::make_pair(it.ptr(), dist + 1));
@@ -231,7 +232,6 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                 }
             }
 
-            patchFaces[i].assign(visited.begin(), visited.end());
             if (ctr->isLocked()) {
                 srcIds.push_back(i);
             } else {
-- 
2.43.0


From 6b1e7b7c3f7599491278eb4bc1eef2788b490597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:09 +0000
Subject: [PATCH 16/28] fix: stop walking around a vertex once a face next to
 it was partly collapsed

---
 src/tinymesh/restore/completion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index a807f20..69a0149 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -611,7 +611,9 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
                     if (it->index() < 0 || it->isLocked()) continue;
 
                     if (it->area() < 0.01 * avgArea) {
-                        if (mesh.collapseFace(it.ptr())) {
+                        // The faces around the vertex change even if only one of two edges is collapsed
+                        const size_t numFaces = mesh.numFaces();
+                        if (mesh.collapseFace(it.ptr()) || mesh.numFaces() != numFaces) {
                             isRepaired = true;
                             update = true;
                             break;
-- 
2.43.0


From 41946fbb734ad0d6c9c4bc672d04d2c9f0383544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:35 +0000
Subject: [PATCH 17/28] fix: report failed file operations when saving a mesh

---
 src/tinymesh/core/mesh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index e691b12..ca7187a 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -508,6 +508,9 @@ void Mesh::saveOBJ(const std::string &filename) const {
     }
 
     writer.close();
+    if (writer.fail()) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 void Mesh::savePLY(const std::string &filename) const {
@@ -517,7 +520,7 @@ void Mesh::savePLY(const std::string &filename) const {
     buffer.open(filename.c_str(), std::ios::out | std::ios::binary);
 
     std::ostream outstream(&buffer);
-    if (outstream.fail()) {
+    if (!buffer.is_open()) {
         Error("Failed to open file: %s", filename.c_str());
     }
 
@@ -561,6 +564,9 @@ void Mesh::savePLY(const std::string &filename) const {
     plyfile.get_comments().push_back("generated by tinyply 2.2");
 
     plyfile.write(outstream, true);
+    if (outstream.fail() || buffer.close() == nullptr) {
+        Error("Failed to write file: %s", filename.c_str());
+    }
 }
 
 bool Mesh::splitHE(Halfedge *he) {
-- 
2.43.0


From d594083fa71ba5798d6df68e054f83fb2d91de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:11 +0000
Subject: [PATCH 18/28] fix: check what was read when loading a mesh

Report read errors, missing or differently typed PLY elements, indices
out of range and vertices without any face instead of reading memory
that does not belong to the file data.
---
 src/tinymesh/core/mesh.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index ca7187a..52665dc 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -290,6 +290,10 @@ void Mesh::construct() {
     // For convenience, advance halfedge of each boundary vertex to one that is on the boundary
     for (auto v : vertices_) {
         Halfedge *he = v->halfedge_;
+        if (he == nullptr) {
+            Error("Some vertices are not referenced by any polygon!");
+        }
+
         do {
             if (he->rev_ == nullptr) {
                 v->halfedge_ = he;
@@ -375,7 +379,9 @@ void Mesh::loadOBJ(const std::string &filename) {
     std::vector<tinyobj::material_t> mats;
     std::string warnMsg;
     std::string errMsg;
-    bool success = tinyobj::LoadObj(&attrib, &shapes, &mats, &warnMsg, &errMsg, filename.c_str());
+    std::ifstream reader(filename.c_str());
+    bool success = reader.is_open() && tinyobj::LoadObj(&attrib, &shapes, &mats, &warnMsg, &errMsg, &reader);
+    success = success && !reader.bad();
     if (!errMsg.empty()) {
         Warn("%s", errMsg.c_str());
     }
@@ -390,6 +396,10 @@ void Mesh::loadOBJ(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     for (const auto &shape : shapes) {
         for (const auto &index : shape.mesh.indices) {
+            if (index.vertex_index >= (int)(attrib.vertices.size() / 3)) {
+                Error("Vertex index out of range: %d", index.vertex_index);
+            }
+
             Vec3 v;
             if (index.vertex_index >= 0) {
                 v = Vec3(attrib.vertices[index.vertex_index * 3 + 0], attrib.vertices[index.vertex_index * 3 + 1],
@@ -447,8 +457,20 @@ void Mesh::loadPLY(const std::string &filename) {
         std::cerr << "tinyply exception: " << e.what() << std::endl;
     }
 
+    if (!vert_data || !face_data) {
+        Error("Vertex positions or face indices are not found: %s", filename.c_str());
+    }
+
+    if (vert_data->t != tinyply::Type::FLOAT32 || vert_data->isList ||
+        (face_data->t != tinyply::Type::INT32 && face_data->t != tinyply::Type::UINT32) || !face_data->isList) {
+        Error("Unsupported data types of vertex positions or face indices: %s", filename.c_str());
+    }
+
     // Read vertex data
     file.read(reader);
+    if (reader.fail()) {
+        Error("Failed to read file: %s", filename.c_str());
+    }
 
     // Copy vertex data
     const size_t numVerts = vert_data->count;
@@ -462,6 +484,10 @@ void Mesh::loadPLY(const std::string &filename) {
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : raw_indices) {
+        if (i >= numVerts) {
+            Error("Vertex index out of range: %u", i);
+        }
+
         const Vec3 pos = Vec3(raw_vertices[i * 3 + 0], raw_vertices[i * 3 + 1], raw_vertices[i * 3 + 2]);
         if (uniqueVertices.count(pos) == 0) {
             uniqueVertices[pos] = static_cast<uint32_t>(vertices_.size());
-- 
2.43.0


From ff7c0c8b5d431f91576d22fdd18dfaf9de452dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:21 +0000
Subject: [PATCH 19/28] fix: keep progress bar arithmetic in range for empty
 and very long runs

---
 src/tinymesh/core/progress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tinymesh/core/progress.h b/src/tinymesh/core/progress.h
index 4e88a2e..65c8a6b 100644
--- a/src/tinymesh/core/progress.h
+++ b/src/tinymesh/core/progress.h
@@ -35,10 +35,10 @@ public:
     }
 
     void step(int n = 1) {
-        m_step = std::min(m_step + n, m_total);
+        m_step = n < m_total - m_step ? m_step + n : m_total;
         auto now = std::chrono::system_clock::now();
 
-        const double percent = 100.0 * m_step / m_total;
+        const double percent = m_total > 0 ? 100.0 * m_step / m_total : 100.0;
         const int64_t elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - start).count();
         const double time_msec_per_step = (double)elapsed / (double)m_step;
         const double rest_time = time_msec_per_step * (m_total - m_step);
@@ -66,7 +66,7 @@ public:
             it_text = oss.str();
         }
 
-        const int tick = (int)(m_width * m_step / m_total);
+        const int tick = m_total > 0 ? (int)((int64_t)m_width * m_step / m_total) : m_width;
         std::string pbar = std::string(tick, '=');
         if (tick != m_width) {
             pbar += ">";
-- 
2.43.0


From 9f891755c8cc696a29dac13aa36291092c18953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:21 +0000
Subject: [PATCH 20/28] fix: start faces at the first vertex they were given

---
 src/tinymesh/core/mesh.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index 52665dc..b31a885 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -262,7 +262,9 @@ void Mesh::construct() {
             vertices_[a]->halfedge_ = he;
             he->src_ = vertices_[a].get();
             he->face_ = face;
-            face->halfedge_ = he;
+            if (j == 0) {
+                face->halfedge_ = he;
+            }
 
             faceHalfedges.push_back(he);
 
-- 
2.43.0


From 576566bedbd9c72c0093dc696f78b651aeec03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:37 +0000
Subject: [PATCH 21/28] fix: do not throw from the print stream destructor

---
 src/tinymesh/core/debug.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/debug.h b/src/tinymesh/core/debug.h
index e64bbfc..fb90c32 100644
--- a/src/tinymesh/core/debug.h
+++ b/src/tinymesh/core/debug.h
@@ -33,7 +33,11 @@ public:
     }
 
     virtual ~PrintStream() {
-        flush();
+        try {
+            flush();
+        } catch (...) {
+            // Throwing here would terminate the process
+        }
     }
 
     template <typename Type>
-- 
2.43.0


From 5e31568c081c87930f75e5239eb57d835e9ee61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:28 +0000
Subject: [PATCH 22/28] fix: make the edge order of L0 smoothing independent of
 addresses

---
 src/tinymesh/filters/denoise.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/filters/denoise.cpp b/src/tinymesh/filters/denoise.cpp
index f477d83..e4ebc94 100644
--- a/src/tinymesh/filters/denoise.cpp
+++ b/src/tinymesh/filters/denoise.cpp
@@ -203,13 +203,14 @@ void denoiseL0Smooth(Mesh &mesh, double alpha, double beta) {
 
     // List unique halfedges
     std::unordered_set<Halfedge *> uniqueHEs;
+    std::vector<Halfedge *> edges;  // Order must not depend on addresses
     for (int i = 0; i < mesh.numHalfedges(); i++) {
         Halfedge *he = mesh.halfedge(i);
         if (uniqueHEs.count(he) != 0) continue;
         if (uniqueHEs.count(he->rev()) != 0) continue;
         uniqueHEs.insert(he);
+        edges.push_back(he);
     }
-    std::vector<Halfedge *> edges(uniqueHEs.begin(), uniqueHEs.end());
     Assertion(edges.size() == ne, "Collecting unique edges inconsistent!");
 
     std::vector<EigenTriplet> tripR;
-- 
2.43.0


From 96607fa965de4f2d29ed75bbad9f471115761962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:58 +0000
Subject: [PATCH 23/28] fix: forget removed vertices when updating signatures
 during hole completion

---
 src/tinymesh/restore/completion.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index 69a0149..c4d247e 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -624,6 +624,15 @@ void holeFillContextCoherent(Mesh &mesh, int maxiters) {
         }
 
         if (isRepaired) {
+            // Forget removed vertices because their addresses can be used again
+            std::unordered_set<const Vertex *> alive;
+            for (int i = 0; i < mesh.numVertices(); i++) {
+                alive.insert(mesh.vertex(i));
+            }
+            for (auto it = hksTable.begin(); it != hksTable.end();) {
+                it = alive.count(it->first) != 0 ? std::next(it) : hksTable.erase(it);
+            }
+
             // Update HKS table
             for (int i = 0; i < mesh.numVertices(); i++) {
                 Vertex *v = mesh.vertex(i);
-- 
2.43.0


From 34a51faf0baaafc36f943883fb20d068ebf3330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:46 +0000
Subject: [PATCH 24/28] fix: check that every position and index was read when
 loading a PLY file

---
 src/tinymesh/core/mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index b31a885..f744da9 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -474,6 +474,11 @@ void Mesh::loadPLY(const std::string &filename) {
         Error("Failed to read file: %s", filename.c_str());
     }
 
+    if (vert_data->buffer.size_bytes() / (3 * sizeof(float)) < vert_data->count ||
+        face_data->buffer.size_bytes() / (3 * sizeof(uint32_t)) < face_data->count) {
+        Error("Some vertex positions or face indices are missing: %s", filename.c_str());
+    }
+
     // Copy vertex data
     const size_t numVerts = vert_data->count;
     std::vector<float> raw_vertices(numVerts * 3);
-- 
2.43.0


From 7d1c5a3b8b7aee577dcd3993969a345314f666a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:57 +0000
Subject: [PATCH 25/28] fix: refuse triangle lists with missing corners

---
 src/tinymesh/core/mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index f744da9..aa50a51 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -97,6 +97,10 @@ void Mesh::construct(const std::vector<Vec3> &vertices, const std::vector<uint32
     std::unordered_map<Vec3, uint32_t> uniqueVertices;
     vertices_.clear();
     for (uint32_t i : indices) {
+        if (i >= vertices.size()) {
+            Error("Vertex index out of range: %u", i);
+        }
+
         const Vec3 &pos = vertices[i];
 
         if (uniqueVertices.count(pos) == 0) {
@@ -186,6 +190,10 @@ double Mesh::getMeanFaceArea() const {
 }
 
 void Mesh::construct() {
+    if (indices_.size() % 3 != 0) {
+        Error("Each triangle must have three vertices!");
+    }
+
     for (size_t i = 0; i < indices_.size(); i += 3) {
         if (indices_[i + 0] == indices_[i + 1] || indices_[i + 1] == indices_[i + 2] ||
             indices_[i + 2] == indices_[i + 0]) {
-- 
2.43.0


From cd385d8a5f450d846c3cce2150eecd4d6642469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:57 +0000
Subject: [PATCH 26/28] fix: keep the search structure within its own triangles
 when it is empty or its last construction failed

---
 src/tinymesh/core/bvh.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/core/bvh.cpp b/src/tinymesh/core/bvh.cpp
index 208bb59..9a2b281 100644
--- a/src/tinymesh/core/bvh.cpp
+++ b/src/tinymesh/core/bvh.cpp
@@ -59,12 +59,22 @@ BVH::BVH(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices
 }
 
 void BVH::construct(const std::vector<Vec3> &vertices, const std::vector<uint32_t> &indices) {
+    root = nullptr;
+    nodes.clear();
     tris.clear();
+    if (indices.size() % 3 != 0) {
+        Error("Each triangle must have three vertices!");
+    }
+
     std::vector<BVHPrimitiveInfo> buildData;
     for (size_t i = 0; i < indices.size(); i += 3) {
         const uint32_t i0 = indices[i + 0];
         const uint32_t i1 = indices[i + 1];
         const uint32_t i2 = indices[i + 2];
+        if (i0 >= vertices.size() || i1 >= vertices.size() || i2 >= vertices.size()) {
+            Error("Vertex index out of range!");
+        }
+
         const size_t idx = tris.size();
         tris.emplace_back(vertices[i0], vertices[i1], vertices[i2]);
         buildData.emplace_back(idx, tris[idx].bounds());
@@ -79,6 +89,10 @@ double BVH::distance(const Vec3 &p) const {
 }
 
 Vec3 BVH::closestPoint(const Vec3 &query) const {
+    if (root == nullptr) {
+        Error("No triangle to search!");
+    }
+
     std::stack<BVHNode *> stk;
     stk.push(root);
 
@@ -146,7 +160,7 @@ BVHNode *BVH::constructRec(std::vector<BVHPrimitiveInfo> &buildData, int start,
             for (int i = start; i < end; i++) {
                 const double numer = buildData[i].centroid[splitAxis] - centroidBounds.posMin()[splitAxis];
                 int b = static_cast<int>(nBuckets * std::abs(numer) * idenom);
-                if (b == nBuckets) {
+                if (b < 0 || b >= nBuckets) {
                     b = nBuckets - 1;
                 }
 
-- 
2.43.0


From 6516d83895f8134e7472e620efb01083ac2556a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:01 +0000
Subject: [PATCH 27/28] fix: leave the mesh as it was when filling a hole by
 advancing front fails

---
 src/tinymesh/restore/completion.cpp | 32 ++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/tinymesh/restore/completion.cpp b/src/tinymesh/restore/completion.cpp
index c4d247e..d55aa87 100644
--- a/src/tinymesh/restore/completion.cpp
+++ b/src/tinymesh/restore/completion.cpp
@@ -91,7 +91,37 @@ void holeFillMinDihedral(Mesh &mesh, Face *face, double dihedralBound) {
 }
 
 void holeFillAdvancingFront(Mesh &mesh, Face *face) {
-    mesh.holeFillAdvancingFront_(face);
+    // Keep all the elements to put the mesh back if filling fails halfway
+    auto vertices = mesh.vertices_;
+    auto halfedges = mesh.halfedges_;
+    auto faces = mesh.faces_;
+    const auto values = [](const auto &list) {
+        std::vector<typename std::decay_t<decltype(list)>::value_type::element_type> ret;
+        for (const auto &element : list) {
+            ret.push_back(*element);
+        }
+        return ret;
+    };
+    const auto vertexValues = values(vertices);
+    const auto halfedgeValues = values(halfedges);
+    const auto faceValues = values(faces);
+
+    try {
+        mesh.holeFillAdvancingFront_(face);
+    } catch (...) {
+        const auto restore = [](const auto &list, const auto &values) {
+            for (size_t i = 0; i < list.size(); i++) {
+                *list[i] = values[i];
+            }
+        };
+        restore(vertices, vertexValues);
+        restore(halfedges, halfedgeValues);
+        restore(faces, faceValues);
+        mesh.vertices_.swap(vertices);
+        mesh.halfedges_.swap(halfedges);
+        mesh.faces_.swap(faces);
+        throw;
+    }
 }
 
 void holeFillContextCoherent(Mesh &mesh, int maxiters) {
-- 
2.43.0


From 67a4dc34f716cb51906f434c106335d5ab923783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:22 +0000
Subject: [PATCH 28/28] fix: give back elements and search nodes when memory
 runs out while they are added

---
 src/tinymesh/core/bvh.cpp        |  4 ++--
 src/tinymesh/core/completion.cpp | 14 +++++++-------
 src/tinymesh/core/mesh.cpp       | 11 +++++++----
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/tinymesh/core/bvh.cpp b/src/tinymesh/core/bvh.cpp
index 9a2b281..0351f43 100644
--- a/src/tinymesh/core/bvh.cpp
+++ b/src/tinymesh/core/bvh.cpp
@@ -125,8 +125,8 @@ Vec3 BVH::closestPoint(const Vec3 &query) const {
 BVHNode *BVH::constructRec(std::vector<BVHPrimitiveInfo> &buildData, int start, int end) {
     if (start == end) return nullptr;
 
-    BVHNode *node = new BVHNode();
-    nodes.emplace_back(node);
+    nodes.push_back(std::make_shared<BVHNode>());
+    BVHNode *node = nodes.back().get();
 
     Bounds3 bounds;
     for (int i = start; i < end; i++) {
diff --git a/src/tinymesh/core/completion.cpp b/src/tinymesh/core/completion.cpp
index d9f9ee8..441a84c 100644
--- a/src/tinymesh/core/completion.cpp
+++ b/src/tinymesh/core/completion.cpp
@@ -32,9 +32,9 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
         new_he0 = pair2he[E(i0, i1)];
     } else {
         new_he0 = new Halfedge();
+        addHalfedge(new_he0);
         pair2he.insert(std::make_pair(E(i0, i1), new_he0));
         he2pair.insert(std::make_pair(new_he0, E(i0, i1)));
-        addHalfedge(new_he0);
     }
 
     Halfedge *new_he1 = nullptr;
@@ -42,9 +42,9 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
         new_he1 = pair2he[E(i1, i2)];
     } else {
         new_he1 = new Halfedge();
+        addHalfedge(new_he1);
         pair2he.insert(std::make_pair(E(i1, i2), new_he1));
         he2pair.insert(std::make_pair(new_he1, E(i1, i2)));
-        addHalfedge(new_he1);
     }
 
     Halfedge *new_he2 = nullptr;
@@ -52,9 +52,9 @@ Face *Mesh::addNewTriangle(const std::vector<Vertex *> &boundary, const std::tup
         new_he2 = pair2he[E(i2, i0)];
     } else {
         new_he2 = new Halfedge();
+        addHalfedge(new_he2);
         pair2he.insert(std::make_pair(E(i2, i0), new_he2));
         he2pair.insert(std::make_pair(new_he2, E(i2, i0)));
-        addHalfedge(new_he2);
     }
 
     new_he0->src_ = boundary[i0];
@@ -468,8 +468,8 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             addVertex(new_vert);
 
             Halfedge *new_he1 = new Halfedge;
-            Halfedge *new_he2 = new Halfedge;
             addHalfedge(new_he1);
+            Halfedge *new_he2 = new Halfedge;
             addHalfedge(new_he2);
 
             new_vert->halfedge_ = new_he2;
@@ -519,15 +519,15 @@ void Mesh::holeFillAdvancingFront_(Face *face) {
             const Vec3 pnew2 = p1 + normalize(e1 + e2 * 2.0) * len2;
 
             Vertex *new_vert1 = new Vertex(pnew1);
-            Vertex *new_vert2 = new Vertex(pnew2);
             addVertex(new_vert1);
+            Vertex *new_vert2 = new Vertex(pnew2);
             addVertex(new_vert2);
 
             Halfedge *new_he1 = new Halfedge;
-            Halfedge *new_he2 = new Halfedge;
-            Halfedge *new_he3 = new Halfedge;
             addHalfedge(new_he1);
+            Halfedge *new_he2 = new Halfedge;
             addHalfedge(new_he2);
+            Halfedge *new_he3 = new Halfedge;
             addHalfedge(new_he3);
 
             new_vert1->halfedge_ = new_he2;
diff --git a/src/tinymesh/core/mesh.cpp b/src/tinymesh/core/mesh.cpp
index aa50a51..ddec4c4 100644
--- a/src/tinymesh/core/mesh.cpp
+++ b/src/tinymesh/core/mesh.cpp
@@ -246,6 +246,7 @@ void Mesh::construct() {
 
         // Traverse face vertices
         auto face = new Face();
+        addFace(face);
         std::vector<Halfedge *> faceHalfedges;
         for (int j = 0; j < ngon; j++) {
             // Count up #faces around each vertex
@@ -288,7 +289,6 @@ void Mesh::construct() {
                 he->rev_ = nullptr;
             }
         }
-        addFace(face);
 
         // Set next halfedges
         for (int j = 0; j < ngon; j++) {
@@ -1090,17 +1090,20 @@ bool Mesh::verifyVertex(Vertex *v) const {
 
 void Mesh::addVertex(Vertex *v) {
     v->index_ = static_cast<int>(vertices_.size());
-    vertices_.emplace_back(v);
+    std::shared_ptr<Vertex> owner(v);  // frees the vertex when the list cannot grow
+    vertices_.push_back(std::move(owner));
 }
 
 void Mesh::addHalfedge(Halfedge *he) {
     he->index_ = static_cast<int>(halfedges_.size());
-    halfedges_.emplace_back(he);
+    std::shared_ptr<Halfedge> owner(he);
+    halfedges_.push_back(std::move(owner));
 }
 
 void Mesh::addFace(Face *f) {
     f->index_ = static_cast<int>(faces_.size());
-    faces_.emplace_back(f);
+    std::shared_ptr<Face> owner(f);
+    faces_.push_back(std::move(owner));
 }
 
 void Mesh::removeVertex(Vertex *v) {
-- 
2.43.0

