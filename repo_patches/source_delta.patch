From ed61809f1ce12351886364b6579cadadfd8f74ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 01/20] fix: scale the superellipse normal by the semi-axes in
 getMinkSum2D

The gradient of the implicit function at parameter theta is
(cos^(2-eps)/a, sin^(2-eps)/b); without the division the reported
Minkowski boundary is wrong for every superellipse with a != b.
---
 src/geometry/SuperEllipse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..197ddda 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -88,9 +88,9 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false) / a1;
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true) / b1;
     }
     xMinkowski =
         getOriginShape() +
-- 
2.43.0


From bec13937c1acff05c33b377b0907c4fdb7b1b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 02/20] fix: proper orientation of the covering ellipse and
 ellipsoid

acos of the first entry loses the sign of the angle, and the matrix of
singular vectors can be a reflection, from which no quaternion can be
built; in both cases the result did not cover its inputs.
---
 src/geometry/TightFitEllipsoid.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..0aba298 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
@@ -74,7 +74,11 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    Eigen::Matrix3d Rc = svd.matrixU();
+    if (Rc.determinant() < 0) {
+        Rc.col(2) *= -1;
+    }
+    const Eigen::Quaterniond quatC(Rc);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From 1fe55948267efcd456cef2e5a1626d9bb765d44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 03/20] fix: do not wrap link angles when bounding the motion
 of a planar link

The wrapped end angles can lie on different sides of pi, so that the
tightly-fitted ellipse of a link covered the complementary arc instead
of the orientations the link passes through.
---
 src/planners/HRM2D.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..d9b5ad4 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -361,13 +361,9 @@ void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
         Eigen::Rotation2Dd rotLink(
             Eigen::Matrix2d(robot_.getTF().at(i).topLeftCorner(2, 2)));
-        Eigen::Rotation2Dd rotA(Eigen::Rotation2Dd(thetaA).toRotationMatrix() *
-                                rotLink);
-        Eigen::Rotation2Dd rotB(Eigen::Rotation2Dd(thetaB).toRotationMatrix() *
-                                rotLink);
-
         tfe.push_back(getTFE2D(
-            robot_.getLinks().at(i).getSemiAxis(), rotA.angle(), rotB.angle(),
-            uint(param_.numPoint), robot_.getLinks().at(i).getNum()));
+            robot_.getLinks().at(i).getSemiAxis(), thetaA + rotLink.angle(),
+            thetaB + rotLink.angle(), uint(param_.numPoint),
+            robot_.getLinks().at(i).getNum()));
     }
 }
-- 
2.43.0


From 913742af03598a4622fd4c53d182d186e81aa75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 04/20] fix: return the two end configurations when
 interpolating with no step

The result was overwritten with configurations computed with the step
1/0, which are not a number.
---
 src/util/InterpolateSE3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..7435250 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -35,6 +35,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
 
     if (numStep == 0) {
         vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return vInterp;
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 2513c411c91ec13b89b40fdff0f2eb7fb7e649ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 05/20] fix: report the cost of the edges used by the solution
 path

The sum indexed the edge weights with vertex ids (possibly out of
range); the distance A* found for the goal is the sum of the weights of
the edges on the path.
---
 include/hrm/planners/HighwayRoadMap-inl.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..c1a104e 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,12 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From ea8da5bf740f6f3364bdb19f3a791bcc11af78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 06/20] fix: connecting exactly two slices no longer reads a
 third one

---
 src/planners/HRM2D.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index d9b5ad4..2ce650d 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -112,7 +112,11 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         endIdCur = vertexIdx_.at(i).slice;
 
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == param_.numSlice - 1) {
+            // The only two slices are already connected
+            if (param_.numSlice == 2) {
+                break;
+            }
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 3bc3f0df6af41fd25889080632624f5ab661d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 07/20] fix: a single slice gets a finite heading

---
 src/planners/HRM2D.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 2ce650d..05080bd 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -44,7 +44,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
-- 
2.43.0


From 30c459af62213004eed123153211c63d0691a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 08/20] fix: a single sweep line gets a finite coordinate

---
 src/planners/HRM2D.cpp |  6 ++++--
 src/planners/HRM3D.cpp | 14 ++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 05080bd..6331b20 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -57,8 +57,10 @@ void hrm::planners::HRM2D::sweepLineProcess() {
     // Compute vector of y-coordinates
     std::vector<Coordinate> ty(param_.numLineY);
     const Coordinate dy =
-        (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
-        (static_cast<double>(param_.numLineY) - 1);
+        param_.numLineY > 1
+            ? (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                  (static_cast<double>(param_.numLineY) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numLineY; ++i) {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..6ab7739 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -63,10 +63,16 @@ void hrm::planners::HRM3D::sampleOrientations() {
 void hrm::planners::HRM3D::sweepLineProcess() {
     // x- and y-coordinates of sweep lines
     std::vector<Coordinate> ty(param_.numLineY);
-    const double dx = (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
-                      static_cast<double>(param_.numLineX - 1);
-    const double dy = (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
-                      static_cast<double>(param_.numLineY - 1);
+    const double dx =
+        param_.numLineX > 1
+            ? (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+                  static_cast<double>(param_.numLineX - 1)
+            : 0.0;
+    const double dy =
+        param_.numLineY > 1
+            ? (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
+                  static_cast<double>(param_.numLineY - 1)
+            : 0.0;
 
     for (size_t i = 0; i < param_.numLineY; ++i) {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
-- 
2.43.0


From 992505d9c093bff1d7c8628fd2c005fc33493853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 09/20] fix: size the intersection tables for the current
 number of sweep lines

Refinement doubles the number of lines, but the tables were sized in the
constructor only, so that every refinement failed with an out-of-range
exception.
---
 src/planners/HRM2D.cpp | 2 ++
 src/planners/HRM3D.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 6331b20..2c7ca00 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -67,6 +67,8 @@ void hrm::planners::HRM2D::sweepLineProcess() {
 
     // Find intersecting points to C-obstacles for each raster scan line
     std::vector<std::vector<Coordinate>> tLine{ty};
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
     freeSpacePtr_->computeIntersectionInterval(tLine);
 
     // Compute collision-free intervals at each sweep line
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 6ab7739..19f2721 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -79,6 +79,8 @@ void hrm::planners::HRM3D::sweepLineProcess() {
     }
 
     // Find intersections along each sweep line
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                         param_.boundaryLimits[5]);
     freeSegOneSlice_.tx.clear();
     freeSegOneSlice_.freeSegmentYZ.clear();
     for (size_t i = 0; i < param_.numLineX; ++i) {
-- 
2.43.0


From 89615a0a2215aecad59b0fc9a42ee039ae3d2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 10/20] fix: do not report spurious zero roots of a polynomial

---
 src/util/EllipsoidSeparation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSeparation.cpp b/src/util/EllipsoidSeparation.cpp
index 8e44f78..2afd040 100644
--- a/src/util/EllipsoidSeparation.cpp
+++ b/src/util/EllipsoidSeparation.cpp
@@ -190,7 +190,7 @@ bool hrm::isEllipseSeparated(const SuperEllipse& ellipsoidA,
 std::vector<std::complex<double>> hrm::getRootsPolynomial(
     const std::vector<double>& coeffs) {
     const auto matsz = static_cast<Eigen::Index>(coeffs.size() - 1);
-    std::vector<std::complex<double>> vret(matsz);
+    std::vector<std::complex<double>> vret;
     Eigen::MatrixXd companionMatrix = Eigen::MatrixXd::Zero(matsz, matsz);
 
     // Construct the companion matrix
-- 
2.43.0


From 3de52774426d6dafe3188797e2dbbd906f34db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 11/20] fix: use the exponent of a superellipse for the planar
 section of its collision mesh

The first exponent of a superquadric shapes the vertical profile and the
second one the planar section; they were swapped, so every planar
collision mesh was close to a rectangle.
---
 src/util/EllipsoidSQCollisionFCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..4d860c6 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -86,7 +86,7 @@ fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
     // Mesh model
     const SuperQuadrics objAux(
         {object.getSemiAxis().at(0), object.getSemiAxis().at(1), 0.1},
-        {object.getEpsilon(), 0.1}, {0.0, 0.0, 0.0},
+        {0.1, object.getEpsilon()}, {0.0, 0.0, 0.0},
         Eigen::Quaterniond::Identity(), 10);
     const Mesh objMesh = getMeshFromSQ(objAux);
     auto modelPtr = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
-- 
2.43.0


From 59ab568b95f7103182742723641c8086dd0faf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 12/20] fix: never offer a vertex of another slice as nearest
 neighbour

When a slice had no vertex (2D: no vertex closer than vertex 0), vertex 0
of the roadmap was offered for it, also when the roadmap was empty; in
3D the closest orientation was left uninitialised when it was the first
one.
---
 src/planners/HRM2D.cpp | 18 ++++++++++++------
 src/planners/HRM3D.cpp |  7 +++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 2c7ca00..aeea7f3 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -295,13 +295,17 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    std::vector<Vertex> idx;
+    if (res_.graphStructure.vertex.empty()) {
+        return idx;
+    }
+
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
     double minAngle = res_.graphStructure.vertex[0][2];
     double angleDist = 0.0;
     double euclideanDist = 0.0;
-    std::vector<Vertex> idx;
 
     // Find the closest C-slice
     minAngleDist = std::fabs(vertex[2] - minAngle);
@@ -328,9 +332,9 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // Find the close vertex within a range (relative to the size of sweep
     // line gaps) at each C-slice
     for (double angCur : angList) {
+        bool isFound = false;
         Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -339,12 +343,14 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
                     EPSILON) {
                 minEuclideanDist = euclideanDist;
                 idxSlice = i;
+                isFound = true;
             }
         }
 
-        if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-            radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
-                static_cast<double>(param_.numLineY)) {
+        if (isFound &&
+            std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
+                radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+                    static_cast<double>(param_.numLineY)) {
             idx.push_back(idxSlice);
         }
     }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 19f2721..44e58a4 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -458,7 +458,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     std::vector<Vertex> idx;
 
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
@@ -485,6 +485,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     // Find the close vertex within a range (relative to the size of sweep line
     // gaps) at each C-slice
     for (const auto& quatCur : quatList) {
+        bool isFound = false;
         Vertex idxSlice = 0;
         minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
@@ -499,10 +500,12 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
                     res_.graphStructure.vertex[i][6])) < 1e-6) {
                 minEuclideanDist = euclideanDist;
                 idxSlice = i;
+                isFound = true;
             }
         }
 
-        if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
+        if (isFound &&
+            std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
             std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-- 
2.43.0


From 3713cc26b63696dc2b36aeb72d61578d23f464f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 13/20] fix: take every crossing of a line with a boundary into
 account

Only the first two crossings were used. When a line passes through a
vertex or an edge of a boundary these can be the same point, so that the
obstacle was recorded as a single point, a crossing motion was approved,
or, with one crossing only, an element past the end was read.
---
 src/datastructure/FreeSpace2D.cpp | 26 ++++++++++++++----------
 src/datastructure/FreeSpace3D.cpp | 33 +++++++++++++++++++++----------
 src/geometry/LineIntersection.cpp |  8 --------
 src/planners/HRM2D.cpp            |  6 ++++--
 src/planners/HRM3D.cpp            | 20 +++++++++----------
 5 files changed, 53 insertions(+), 40 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..c8d78a3 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace2D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace2D::FreeSpace2D(const MultiBodyTree2D& robot,
                               const std::vector<SuperEllipse>& arena,
                               const std::vector<SuperEllipse>& obstacle)
@@ -22,12 +24,14 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
-                    lowBound_,
-                    std::fmin(intersectPointArena[0], intersectPointArena[1]));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
-                    upBound_,
-                    std::fmax(intersectPointArena[0], intersectPointArena[1]));
+                intersect_.arenaLow.at(i).at(j) =
+                    std::fmin(lowBound_,
+                              *std::min_element(intersectPointArena.cbegin(),
+                                                intersectPointArena.cend()));
+                intersect_.arenaUpp.at(i).at(j) =
+                    std::fmax(upBound_,
+                              *std::max_element(intersectPointArena.cbegin(),
+                                                intersectPointArena.cend()));
             }
         }
 
@@ -40,10 +44,12 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
+                intersect_.obstacleLow.at(i).at(j) =
+                    *std::min_element(intersectPointObstacle.cbegin(),
+                                      intersectPointObstacle.cend());
+                intersect_.obstacleUpp.at(i).at(j) =
+                    *std::max_element(intersectPointObstacle.cbegin(),
+                                      intersectPointObstacle.cend());
             }
         }
     }
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..a399ea7 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace3D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
                               const std::vector<SuperQuadrics>& arena,
                               const std::vector<SuperQuadrics>& obstacle)
@@ -28,6 +30,11 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
 
 void hrm::FreeSpace3D::computeIntersectionInterval(
     const std::vector<std::vector<Coordinate>>& tLine) {
+    // Comparison of intersecting points along the sweep line
+    const auto isLower = [](const Point3D& p1, const Point3D& p2) {
+        return p1(2) < p2(2);
+    };
+
     for (auto i = 0; i < tLine.at(1).size(); ++i) {
         // Find intersections along each sweep line
         Line3D lineZ(6);
@@ -41,12 +48,14 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, std::fmin(intersectPointArena[0](2),
-                                                   intersectPointArena[1](2)));
-                intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, std::fmax(intersectPointArena[0](2),
-                                                  intersectPointArena[1](2)));
+                intersect_.arenaLow.at(i).at(j) = std::fmin(
+                    lowBound_,
+                    (*std::min_element(intersectPointArena.cbegin(),
+                                       intersectPointArena.cend(), isLower))(2));
+                intersect_.arenaUpp.at(i).at(j) = std::fmax(
+                    upBound_,
+                    (*std::max_element(intersectPointArena.cbegin(),
+                                       intersectPointArena.cend(), isLower))(2));
             }
         }
 
@@ -58,10 +67,14 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
+                intersect_.obstacleLow.at(i).at(j) =
+                    (*std::min_element(intersectPointObstacle.cbegin(),
+                                       intersectPointObstacle.cend(),
+                                       isLower))(2);
+                intersect_.obstacleUpp.at(i).at(j) =
+                    (*std::max_element(intersectPointObstacle.cbegin(),
+                                       intersectPointObstacle.cend(),
+                                       isLower))(2);
             }
         }
     }
diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..7af611f 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -44,10 +44,6 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
     return points;
@@ -114,10 +110,6 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
     return points;
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index aeea7f3..6872013 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -282,8 +282,10 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
         auto intersectObs = intersectHorizontalLinePolygon2D(v[1], bound);
 
         if (!intersectObs.empty()) {
-            if (v[0] > std::fmin(intersectObs[0], intersectObs[1]) &&
-                v[0] < std::fmax(intersectObs[0], intersectObs[1])) {
+            if (v[0] > *std::min_element(intersectObs.cbegin(),
+                                         intersectObs.cend()) &&
+                v[0] < *std::max_element(intersectObs.cbegin(),
+                                         intersectObs.cend())) {
                 return false;
             }
         }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 44e58a4..26ab862 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -346,17 +346,14 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
             const auto intersectObs = intersectLineMesh3D(line_, obs);
 
             // Check line segments overlapping
-            if (!intersectObs.empty()) {
+            for (const auto& pt : intersectObs) {
                 // Dot product between vectors (t1->intersect) and
                 // (t2->intersect)
-                const auto s0 =
-                    (intersectObs[0] - t1_).dot(intersectObs[0] - t2_);
-                const auto s1 =
-                    (intersectObs[1] - t1_).dot(intersectObs[1] - t2_);
+                const auto s = (pt - t1_).dot(pt - t2_);
 
                 // Intersect within segment (t1, t2) iff dot product
                 // less than 0
-                isIntersect = ((s0 < 0) || (s1 < 0));
+                isIntersect = isIntersect || (s < 0);
             }
 
             return isIntersect;
@@ -414,11 +411,14 @@ bool hrm::planners::HRM3D::isPtInCFree(const Index bdIdx,
             const auto intersectObs =
                 intersectVerticalLineMesh3D(lineZ_, bound);
 
-            if (!intersectObs.empty()) {
-                isIntersect =
-                    v_[2] > std::fmin(intersectObs[0][2], intersectObs[1][2]) &&
-                    v_[2] < std::fmax(intersectObs[0][2], intersectObs[1][2]);
+            // Inside iff there are intersections both below and above
+            bool isBelow = false;
+            bool isAbove = false;
+            for (const auto& pt : intersectObs) {
+                isBelow = isBelow || v_[2] > pt[2];
+                isAbove = isAbove || v_[2] < pt[2];
             }
+            isIntersect = isBelow && isAbove;
 
             return isIntersect;
         }
-- 
2.43.0


From 8203bb23af0300446d527c0ee01205d8bf874be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 14/20] fix: mesh each configuration-space boundary with its
 own sampling number

The number of the first arena or obstacle was used for all of them, so
that scenes with different numbers got meshes with invalid indices.
---
 src/datastructure/FreeSpace3D.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index a399ea7..d67f989 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -18,13 +18,16 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
+    // One boundary for each body of the robot
+    const size_t numBody = 1 + robot_.getNumLinks();
+
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), arena_.at(i / numBody).getNumParam());
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), obstacle_.at(i / numBody).getNumParam());
     }
 }
 
-- 
2.43.0


From 82a48253cfd1c9d3c8dc7b767b07a5ef1438ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 15/20] fix: read the values of a CSV file in double precision

---
 src/util/Parse2dCsvFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index f910e75..8101dea 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -22,7 +22,7 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                     break;
                 }
                 try {
-                    record.emplace_back(stof(line));
+                    record.emplace_back(stod(line));
                 } catch (const std::invalid_argument& e) {
                     std::cout << "NaN found in file " << filename << " line "
                               << l << std::endl;
-- 
2.43.0


From af61b496de342821f97ab4a366281e136855bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 16/20] fix: interpolate solution paths that pass through a
 single vertex

The step distance of such a path is zero, and the number of steps was
the conversion of an infinite value.
---
 src/planners/HRM3D.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 26ab862..8f87d75 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -289,10 +289,14 @@ hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
 
     // Iteratively store interpolated poses along the solved path
     for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
-            vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+        // A path through one vertex only has no cost, hence no step distance
+        const auto numStep =
+            distanceStep > 0.0
+                ? static_cast<Index>(
+                      vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1)) /
+                      distanceStep)
+                : num;
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
-- 
2.43.0


From 7ad0eaff3ac064da49730881ef7fa346d4977c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 17/20] fix: record the joint values of the refined slice in
 its vertices

Refinement rebuilds every slice, but the joint values of the most recent
slice were stored in the vertices of all of them.
---
 include/hrm/planners/ProbHRM3D.h | 3 +++
 src/planners/ProbHRM3D.cpp       | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 8c3ec93..f3b4b7c 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -57,6 +57,9 @@ class ProbHRM3D : public HRM3D {
     /** \brief Name of URDF file */
     std::string urdfFile_;
 
+    /** \brief Configuration at which the robot is currently placed */
+    std::vector<Coordinate> vCur_;
+
     /** \brief Limit of joint angles */
     const double maxJointAngle_ = HALF_PI;
 };
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..30ff6d9 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -165,7 +165,7 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+    std::vector<Coordinate> vertex(vCur_.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -181,8 +181,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < vCur_.size(); ++m) {
+                vertex.at(m) = vCur_.at(m);
             }
 
             // Construct a std::vector of vertex
@@ -210,6 +210,7 @@ void hrm::planners::ProbHRM3D::setTransform(const std::vector<Coordinate>& V) {
     }
 
     robot_.robotTF(urdfFile_, g, jointConfig);
+    vCur_ = V;
 }
 
 // Construct Tight-Fitted Ellipsoid (TFE) for articulated body
-- 
2.43.0


From c51e3de457e663f7964e93322247b35a8b33762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 18/20] fix: mesh line quick rejection no longer drops lines
 along tilted axes

---
 src/geometry/LineIntersection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 7af611f..5b19b9a 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -19,7 +19,7 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
     for (size_t i = 0; i < basis.size(); ++i) {
         auto currIdx = static_cast<Eigen::Index>(i);
 
-        if (std::fabs(direction.dot(basis.at(i))) < 1e-6 &&
+        if (direction.dot(basis.at(i)) == 0.0 &&
             (line(currIdx) > shape.vertices.row(currIdx).maxCoeff() ||
              line(currIdx) < shape.vertices.row(currIdx).minCoeff())) {
             return points;
-- 
2.43.0


From 09b589b9c41293135daa6ec8455a0ac4dad4f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 19/20] fix: compute the C-space boundaries of a slice with the
 robot at that slice's orientation

The free space computator keeps its own copy of the robot, which was never
updated: every C-slice used the boundaries of the robot as given to the
constructor, whatever its orientation or joint values.
---
 include/hrm/planners/HRM2D.h   |  4 ++++
 include/hrm/planners/HRM2DKC.h |  2 ++
 src/planners/HRM2D.cpp         |  5 +++++
 src/planners/HRM2DKC.cpp       | 14 +++++++++-----
 src/planners/HRM3D.cpp         |  1 +
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..06bace6 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -35,6 +35,10 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
   protected:
     void constructOneSlice(const Index sliceIdx) override;
 
+    /** \brief Update the robot in the free space computator with the current
+     * orientation */
+    virtual void setFreeSpaceRobot();
+
     virtual void sampleOrientations() override;
 
     virtual void generateVertices(const Coordinate tx,
diff --git a/include/hrm/planners/HRM2DKC.h b/include/hrm/planners/HRM2DKC.h
index 454af82..8630e1b 100644
--- a/include/hrm/planners/HRM2DKC.h
+++ b/include/hrm/planners/HRM2DKC.h
@@ -25,6 +25,8 @@ class HRM2DKC : public HRM2D {
     ~HRM2DKC();
 
   private:
+    void setFreeSpaceRobot() override;
+
     void connectMultiSlice() override;
 
     /** \brief Add a middle vertex between two vertices for edge connection
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 6872013..53d4600 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -24,6 +24,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     // Generate new C-slice
     if (!isRefine_) {
         // Generate Minkowski operation boundaries
+        setFreeSpaceRobot();
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
@@ -41,6 +42,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     connectOneSlice2D(freeSegOneSlice_);
 }
 
+void hrm::planners::HRM2D::setFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
diff --git a/src/planners/HRM2DKC.cpp b/src/planners/HRM2DKC.cpp
index e5d331f..2fbbf7f 100644
--- a/src/planners/HRM2DKC.cpp
+++ b/src/planners/HRM2DKC.cpp
@@ -7,6 +7,15 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
                                 const std::vector<SuperEllipse>& obs,
                                 const PlanningRequest& req)
     : HRM2D(robot, arena, obs, req) {
+    // Update robot in the free space computator
+    setFreeSpaceRobot();
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+}
+
+hrm::planners::HRM2DKC::~HRM2DKC() = default;
+
+void hrm::planners::HRM2DKC::setFreeSpaceRobot() {
     // Enlarge the robot
     SuperEllipse baseInflated = robot_.getBase();
     baseInflated.setSemiAxis(
@@ -14,14 +23,9 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
          baseInflated.getSemiAxis().at(1) * (1 + inflationFactor_)});
     MultiBodyTree2D robot_infla(baseInflated);
 
-    // Update robot in the free space computator
     freeSpacePtr_->setRobot(robot_infla);
-    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
-                         param_.boundaryLimits[1]);
 }
 
-hrm::planners::HRM2DKC::~HRM2DKC() = default;
-
 void hrm::planners::HRM2DKC::connectMultiSlice() {
     Index n = res_.graphStructure.vertex.size();
     Index n11;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 8f87d75..b3722bf 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -33,6 +33,7 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     // Add new C-slice
     if (!isRefine_) {
         // Generate Minkowski operation boundaries
+        freeSpacePtr_->setRobot(robot_);
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
-- 
2.43.0


From e6160535582ef39186085448f9ccfd5636e71fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 20/20] fix: sweep each C-slice against its own recorded
 boundaries

When an existing roadmap is refined, and in getFreeSegmentOneSlice, the
sweep-line process used the boundaries that were computed last (those of the
last slice) instead of the ones of the slice being processed.
---
 include/hrm/datastructure/FreeSpace.h   | 6 ++++++
 include/hrm/datastructure/FreeSpace3D.h | 6 ++++++
 src/planners/HRM2D.cpp                  | 3 +++
 src/planners/HRM3D.cpp                  | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..2e9336e 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -65,6 +65,12 @@ class FreeSpaceComputator {
      * \param robot A new robot */
     void setRobot(const RobotType& robot) { robot_ = robot; }
 
+    /** \brief Set C-space obstacles boundary
+     * \param bound The Minkowski boundaries of one C-slice */
+    void setCSpaceBoundary(const BoundaryInfo& bound) {
+        cSpaceBoundary_ = bound;
+    }
+
     /** \brief Get C-space obstacles boundary
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
diff --git a/include/hrm/datastructure/FreeSpace3D.h b/include/hrm/datastructure/FreeSpace3D.h
index 2e02437..9c5b27f 100644
--- a/include/hrm/datastructure/FreeSpace3D.h
+++ b/include/hrm/datastructure/FreeSpace3D.h
@@ -39,6 +39,12 @@ class FreeSpace3D : public FreeSpaceComputator<MultiBodyTree3D, SuperQuadrics> {
                 const std::vector<SuperQuadrics>& obstacle);
     ~FreeSpace3D();
 
+    /** \brief Set C-free boundary as mesh
+     * \param mesh The boundary meshes of one C-slice */
+    void setCSpaceBoundaryMesh(const BoundaryMesh& mesh) {
+        cSpaceBoundaryMesh_ = mesh;
+    }
+
     /** \brief Get C-free boundary as mesh
      * \return The generated mesh as BoundMesh type */
     const BoundaryMesh& getCSpaceBoundaryMesh() const {
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 53d4600..b3c287a 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -70,6 +70,9 @@ void hrm::planners::HRM2D::sweepLineProcess() {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
 
+    // Use the C-space boundaries of the current slice
+    freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+
     // Find intersecting points to C-obstacles for each raster scan line
     std::vector<std::vector<Coordinate>> tLine{ty};
     freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index b3722bf..4795cf9 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -79,6 +79,10 @@ void hrm::planners::HRM3D::sweepLineProcess() {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
 
+    // Use the C-space boundaries of the current slice
+    freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+    freeSpacePtr_->setCSpaceBoundaryMesh(sliceBoundMesh_);
+
     // Find intersections along each sweep line
     freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
                          param_.boundaryLimits[5]);
-- 
2.43.0

