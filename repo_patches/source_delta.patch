From e68ca5345d4b41c67017513bfbe13649d71f9980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 01/57] fix: fem_dkt.h includes a file that does not exist in
 header-only mode

---
 include/delfem2/fem_dkt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_dkt.h b/include/delfem2/fem_dkt.h
index e08eb28..bf7c406 100644
--- a/include/delfem2/fem_dkt.h
+++ b/include/delfem2/fem_dkt.h
@@ -37,7 +37,7 @@ DFM2_INLINE void MakeMat_PlateBendingDKT
 } // namespace delfem2
 
 #ifndef DFM2_STATIC_LIBRARY
-#  include "delfem2/femdkt.cpp"
+#  include "delfem2/fem_dkt.cpp"
 #endif
   
 #endif /* fem_ematrix_h */
-- 
2.43.0


From 1db09faa43fba59e69ef1e82accad2de27023cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 02/57] fix: msh_uniform_class.h includes headers that no
 longer exist

---
 include/delfem2/msh_uniform_class.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/msh_uniform_class.h b/include/delfem2/msh_uniform_class.h
index 01a5351..5130480 100644
--- a/include/delfem2/msh_uniform_class.h
+++ b/include/delfem2/msh_uniform_class.h
@@ -12,12 +12,13 @@
 #include <string>
 #include <vector>
 #include <fstream>
+#include <filesystem>
 
 #include "delfem2/msh_io_obj.h"
 #include "delfem2/msh_io_misc.h"
 #include "delfem2/msh_io_ply.h"
 #include "delfem2/msh_topology_uniform.h"
-#include "delfem2/msh_points.h"
+#include "delfem2/msh_affine_transformation.h"
 #include "delfem2/msh_boundingbox.h"
 #include "delfem2/mshmisc.h"
 #include "delfem2/mshsubdiv.h"
@@ -121,8 +122,5 @@ public:
 
 
 
-#ifndef DFM2_STATIC_LIBRARY
-#  include "delfem2/mshtopoio.cpp"
-#endif
 
 #endif
-- 
2.43.0


From a3eba635fd4dd6f4d5061c138b19b9743ded7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 03/57] fix: cvbundleadjust.h uses renamed headers/functions
 and defines non-inline functions

---
 include/delfem2/cvbundleadjust.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/cvbundleadjust.h b/include/delfem2/cvbundleadjust.h
index e63814f..0cee369 100644
--- a/include/delfem2/cvbundleadjust.h
+++ b/include/delfem2/cvbundleadjust.h
@@ -1,12 +1,18 @@
 #ifndef DFM2_CVBUNDLEADJUST_H
 #define DFM2_CVBUNDLEADJUST_H
 
-#include "delfem2/geo3_v23m34q.h"
+#include "delfem2/mat3.h"
+#include "delfem2/mat3_funcs.h"
+#include "delfem2/vec3.h"
+#include "delfem2/vec3_funcs.h"
+#include <random>
+#include <iostream>
+#include <cassert>
 #include <vector>
 
 namespace delfem2 {
 
-void ReprojectionEnergyPoint(
+inline void ReprojectionEnergyPoint(
     double F[2],
     double dF[2][7],
     //
@@ -58,13 +64,13 @@ void ReprojectionEnergyPoint(
   { // dEdr
     double tmp3[3];
     dfm2::MatTVec3(tmp3, K1Rt01, tmpXY[0]);
-    dfm2::Cross3(&dF[0][4], P1, tmp3);
+    dfm2::Cross(&dF[0][4], P1, tmp3);
     dfm2::MatTVec3(tmp3, K1Rt01, tmpXY[1]);
-    dfm2::Cross3(&dF[1][4], P1, tmp3);
+    dfm2::Cross(&dF[1][4], P1, tmp3);
   }
 }
 
-double ReprojectionEnergy(
+inline double ReprojectionEnergy(
     std::vector<double> &F,
     std::vector<double> &dF,
     //
@@ -104,7 +110,7 @@ double ReprojectionEnergy(
   return eng;
 }
 
-void BundleAdjust_ImgPair_Stochastic(
+inline void BundleAdjust_ImgPair_Stochastic(
     std::vector<float> &aZ0,
     double R01[9],
     double t01[3],
@@ -133,7 +139,7 @@ void BundleAdjust_ImgPair_Stochastic(
     const dfm2::CMat3d R01b = dfm2::CMat3d(R01) * dR;
     const float E_B = ReprojectionEnergy(
         F, dF,
-        aPnt0, K0inv, aZ0, R01b.mat, t01b.p, K1, aPnt1);
+        aPnt0, K0inv, aZ0, R01b.data(), t01b.p, K1, aPnt1);
     if (E_B < E_A) { // fails. put it back..
       std::cout << E_B << std::endl;
       t01b.CopyTo(t01);
@@ -167,7 +173,7 @@ void BundleAdjust_ImgPair_Stochastic(
   }
 }
 
-void BundleAdjust_CheckGrad(
+inline void BundleAdjust_CheckGrad(
     const std::vector<double> &aPnt0,
     const double *K0inv,
     const std::vector<float> &aZ0,
@@ -227,7 +233,7 @@ void BundleAdjust_CheckGrad(
       double dw[3] = {0, 0, 0};
       dw[idimt] += eps;
       double dR[9];
-      dfm2::Mat3_Rotation_Cartesian(dR, dw);
+      dfm2::Mat3_RotMatFromAxisAngleVec(dR, dw);
       double K1Rt01_B[9];
       dfm2::MatMatT3(K1Rt01_B, K1Rt01, dR);
       double FB[2], dFB[2][7];
-- 
2.43.0


From f6cded87e85ac1ec468580e30c484abd8987918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 04/57] fix: geo_gjksat2.h and geo_gjksat3.h cannot be included
 together (duplicate templates)

---
 include/delfem2/geo_gjksat3.h | 41 ++---------------------------------
 1 file changed, 2 insertions(+), 39 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 1574edd..8726b52 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -8,23 +8,9 @@
 #include <utility>
 #include <cmath>
 
-namespace delfem2 {
+#include "delfem2/geo_gjksat2.h"  // FindFurthest, Range_ProjectionPointsOnAxis
 
-template <typename VEC, typename SCALAR = typename VEC::Scalar>
-VEC FindFurthest(const std::vector<VEC>& poly, const VEC& dir)
-{
-	SCALAR max_dist = std::numeric_limits<SCALAR>::lowest();
-	assert(!poly.empty());
-	VEC ret = poly[0];
-	for (const auto& vert : poly) {
-		SCALAR dist = dir.dot(vert);
-		if (dist < max_dist)
-			continue;
-		ret	 = vert;
-		max_dist = dist;
-	}
-	return ret;
-}
+namespace delfem2 {
 
 /**
  * The functions returns the tetrahedra(tetrahedron) simplex that GJK finds if there is intersection
@@ -329,29 +315,6 @@ bool Penetration_Points3_Points3_Epa(
 	return false;
 }
 
-/**
- *
- * @tparam VEC Eigen::Vector3
- * @param[in] vtxs points
- * @param[in] a axis of projection
- * @return range of the projection
- */
-template <typename VEC, typename SCALAR = typename VEC::Scalar>
-std::pair<SCALAR, SCALAR> Range_ProjectionPointsOnAxis(
-    const std::vector<VEC>& vtxs,
-    const VEC& a)
-{
-	SCALAR min0 = a.dot(vtxs[0]);
-	SCALAR max0 = min0;
-	for (unsigned int ivtx = 1; ivtx < vtxs.size(); ++ivtx) {
-		const SCALAR d = a.dot(vtxs[ivtx]);
-		min0	       = (d < min0) ? d : min0;
-		max0	       = (d > max0) ? d : max0;
-	}
-	assert(min0 <= max0);
-	return { min0, max0 };
-}
-
 template <typename VEC>
 bool IsIntersect_Points3_Points3_Sat(
     const std::vector<VEC>& vtxsA,
-- 
2.43.0


From 4a6baf0c978a4e7918b50d88cc632fb644363d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 05/57] fix: bem.h does not compile when included after
 quadrature.h (ambiguous TriGauss)

---
 include/delfem2/bem.cpp | 56 ++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/bem.cpp b/include/delfem2/bem.cpp
index ed61e0e..19b8391 100644
--- a/include/delfem2/bem.cpp
+++ b/include/delfem2/bem.cpp
@@ -296,12 +296,12 @@ void delfem2::makeLinearSystem_PotentialFlow_Order1st(
       n *= -1; // outward pointing vector
       double dC[3] = {0, 0, 0};
       double df = 0;
-      const int nint = NIntTriGauss[ngauss]; // number of integral points
+      const int nint = ::NIntTriGauss[ngauss]; // number of integral points
       for (int iint = 0; iint < nint; iint++) {
-        double r0 = TriGauss[ngauss][iint][0];
-        double r1 = TriGauss[ngauss][iint][1];
+        double r0 = ::TriGauss[ngauss][iint][0];
+        double r1 = ::TriGauss[ngauss][iint][1];
         double r2 = 1.0 - r0 - r1;
-        double wb = TriGauss[ngauss][iint][2];
+        double wb = ::TriGauss[ngauss][iint][2];
         CVec3d yb = r0 * q0 + r1 * q1 + r2 * q2;
         CVec3d v = (p - yb);
         double len = v.norm();
@@ -353,12 +353,12 @@ delfem2::CVec3d delfem2::evaluateField_PotentialFlow_Order1st(
     const double area = n.norm() * 0.5; // area
     n.normalize(); // unit normal
     n *= -1; // outward normal 
-    const int nint = NIntTriGauss[ngauss]; // number of integral points
+    const int nint = ::NIntTriGauss[ngauss]; // number of integral points
     for (int iint = 0; iint < nint; iint++) {
-      double r0 = TriGauss[ngauss][iint][0];
-      double r1 = TriGauss[ngauss][iint][1];
+      double r0 = ::TriGauss[ngauss][iint][0];
+      double r1 = ::TriGauss[ngauss][iint][1];
       double r2 = 1.0 - r0 - r1;
-      double wb = TriGauss[ngauss][iint][2];
+      double wb = ::TriGauss[ngauss][iint][2];
       CVec3d yb = r0 * q0 + r1 * q1 + r2 * q2;
       double phiyb = r0 * aValSrf[jq0] + r1 * aValSrf[jq1] + r2 * aValSrf[jq2];
       CVec3d v = (pos - yb);
@@ -410,12 +410,12 @@ void delfem2::makeLinearSystem_PotentialFlow_Order0th(
       ny *= -1; // it is pointing outward to the domain
       double aC = 0;
       double df = 0;
-      const int nint = NIntTriGauss[ngauss]; // number of integral points
+      const int nint = ::NIntTriGauss[ngauss]; // number of integral points
       for (int iint = 0; iint < nint; iint++) {
-        double r0 = TriGauss[ngauss][iint][0];
-        double r1 = TriGauss[ngauss][iint][1];
+        double r0 = ::TriGauss[ngauss][iint][0];
+        double r1 = ::TriGauss[ngauss][iint][1];
         double r2 = 1.0 - r0 - r1;
-        double wb = TriGauss[ngauss][iint][2];
+        double wb = ::TriGauss[ngauss][iint][2];
         CVec3d yb = r0 * q0 + r1 * q1 + r2 * q2;
         CVec3d r = (pm - yb);
         double len = r.norm();
@@ -482,12 +482,12 @@ void delfem2::evaluateField_PotentialFlow_Order0th(
     ny.normalize(); // unit normal
     ny *= -1; // normal pointing outward
     const double phiy = aValTri[jtri];
-    const int nint = NIntTriGauss[ngauss]; // number of integral points
+    const int nint = ::NIntTriGauss[ngauss]; // number of integral points
     for (int iint = 0; iint < nint; iint++) {
-      const double r0 = TriGauss[ngauss][iint][0];
-      const double r1 = TriGauss[ngauss][iint][1];
+      const double r0 = ::TriGauss[ngauss][iint][0];
+      const double r1 = ::TriGauss[ngauss][iint][1];
       const double r2 = 1.0 - r0 - r1;
-      const double wb = TriGauss[ngauss][iint][2];
+      const double wb = ::TriGauss[ngauss][iint][2];
       const CVec3d yb = r0 * q0 + r1 * q1 + r2 * q2;
       const CVec3d r = (pos - yb);
       const double len = r.norm();
@@ -530,7 +530,7 @@ void delfem2::BEM_VortexSheet_Coeff_0th(
     [[maybe_unused]] const CVec3d &velo,
     int ngauss) {
   assert(ngauss >= 0 && ngauss < 6);
-  const int nint = NIntTriGauss[ngauss]; // number of integral points
+  const int nint = ::NIntTriGauss[ngauss]; // number of integral points
   //
   CVec3d xm = (x0 + x1 + x2) * 0.3333333333333333333;
   CVec3d nx = Normal_Tri3(x0, x1, x2);
@@ -547,10 +547,10 @@ void delfem2::BEM_VortexSheet_Coeff_0th(
   //
   aC[0] = aC[1] = aC[2] = aC[3] = 0.0;
   for (int iint = 0; iint < nint; iint++) {
-    double r0 = TriGauss[ngauss][iint][0];
-    double r1 = TriGauss[ngauss][iint][1];
+    double r0 = ::TriGauss[ngauss][iint][0];
+    double r1 = ::TriGauss[ngauss][iint][1];
     double r2 = 1.0 - r0 - r1;
-    double wb = TriGauss[ngauss][iint][2];
+    double wb = ::TriGauss[ngauss][iint][2];
     CVec3d yb = r0 * y0 + r1 * y1 + r2 * y2;
     CVec3d r = (xm - yb);
     double len = r.norm();
@@ -643,12 +643,12 @@ delfem2::CVec3d delfem2::evaluateField_VortexSheet_Order0th
     ny.normalize(); // unit normal
     const CVec3d uy = (q1 - q0).normalized();
     const CVec3d vy = ny.cross(uy);
-    const int nint = NIntTriGauss[ngauss]; // number of integral points
+    const int nint = ::NIntTriGauss[ngauss]; // number of integral points
     for (int iint = 0; iint < nint; iint++) {
-      const double r0 = TriGauss[ngauss][iint][0];
-      const double r1 = TriGauss[ngauss][iint][1];
+      const double r0 = ::TriGauss[ngauss][iint][0];
+      const double r1 = ::TriGauss[ngauss][iint][1];
       const double r2 = 1.0 - r0 - r1;
-      const double wb = TriGauss[ngauss][iint][2];
+      const double wb = ::TriGauss[ngauss][iint][2];
       CVec3d yb = r0 * q0 + r1 * q1 + r2 * q2;
       CVec3d r = (pos - yb);
       const double len = r.norm();
@@ -959,16 +959,16 @@ void delfem2::Helmholtz_TransferOrder1st_PntTri
   using COMPLEX = std::complex<double>;
   const COMPLEX IMG(0.0, 1.0);
   assert(ngauss >= 0 && ngauss < 3);
-  const int nint = NIntTriGauss[ngauss]; // number of integral points
+  const int nint = ::NIntTriGauss[ngauss]; // number of integral points
   CVec3d n = Normal_Tri3(q0, q1, q2);
   const double a = n.norm() * 0.5; // area
   n.normalize(); // unit normal
   aC[0] = aC[1] = aC[2] = COMPLEX(0, 0);
   for (int iint = 0; iint < nint; iint++) {
-    double r0 = TriGauss[ngauss][iint][0];
-    double r1 = TriGauss[ngauss][iint][1];
+    double r0 = ::TriGauss[ngauss][iint][0];
+    double r1 = ::TriGauss[ngauss][iint][1];
     double r2 = 1.0 - r0 - r1;
-    double w = TriGauss[ngauss][iint][2];
+    double w = ::TriGauss[ngauss][iint][2];
     CVec3d v = p0 - (r0 * q0 + r1 * q1 + r2 * q2);
     double d = v.norm();
     COMPLEX G = exp(COMPLEX(0, k * d)) / (4.0 * M_PI * d);
-- 
2.43.0


From 04029b35f764f8f7fd580f79695c6bd5ea450eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 06/57] fix: headers use std facilities without including the
 header that declares them

---
 include/delfem2/cadtopo.h                   | 2 ++
 include/delfem2/cloth_selfcollision.h       | 1 +
 include/delfem2/colormap.h                  | 3 +++
 include/delfem2/fdm_stablefluids.h          | 2 ++
 include/delfem2/fem_beam2.h                 | 3 +++
 include/delfem2/garment.h                   | 1 +
 include/delfem2/geo_curve_cubic.h           | 3 +++
 include/delfem2/geo_curve_quadratic.h       | 2 ++
 include/delfem2/geo_gjksat2.h               | 2 ++
 include/delfem2/geo_meta_funcs.h            | 4 ++++
 include/delfem2/grid3hash.h                 | 4 ++++
 include/delfem2/lp.h                        | 2 ++
 include/delfem2/ls_pentadiagonal.h          | 3 +++
 include/delfem2/ls_tridiagonal.h            | 4 ++++
 include/delfem2/matn.h                      | 3 +++
 include/delfem2/metashape_camera.h          | 1 +
 include/delfem2/noise.h                     | 2 ++
 include/delfem2/polyline_elastic_rod2.h     | 2 ++
 include/delfem2/polynomial_root.h           | 4 ++++
 include/delfem2/srch_bvh.h                  | 1 +
 include/delfem2/srch_kdtree.h               | 2 ++
 include/delfem2/srch_selfintersection_bvh.h | 1 +
 include/delfem2/srchgrid.h                  | 2 ++
 include/delfem2/thread.h                    | 2 ++
 include/delfem2/view_array2d.h              | 2 ++
 25 files changed, 58 insertions(+)

diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..81642cd 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -8,6 +8,8 @@
 #ifndef DFM2_CADTOPO_H
 #define DFM2_CADTOPO_H
 
+#include <iostream>
+#include <cassert>
 #include <vector>
 #include <climits>
 
diff --git a/include/delfem2/cloth_selfcollision.h b/include/delfem2/cloth_selfcollision.h
index ae9d1b4..3dd2e56 100755
--- a/include/delfem2/cloth_selfcollision.h
+++ b/include/delfem2/cloth_selfcollision.h
@@ -8,6 +8,7 @@
 #ifndef contact_self_collision_cloth_h
 #define contact_self_collision_cloth_h
 
+#include <cstdint>
 #include <vector>
 
 #include "delfem2/srch_bv3_aabb.h"
diff --git a/include/delfem2/colormap.h b/include/delfem2/colormap.h
index 84eef57..75981cb 100644
--- a/include/delfem2/colormap.h
+++ b/include/delfem2/colormap.h
@@ -5,6 +5,9 @@
 #ifndef DFM2_COLORMAP_H_
 #define DFM2_COLORMAP_H_
 
+#include <tuple>
+#include <vector>
+
 /**
  * https://github.com/sjmgarnier/viridisLite/tree/master/data-raw
  * https://github.com/yuki-koyama/tinycolormap
diff --git a/include/delfem2/fdm_stablefluids.h b/include/delfem2/fdm_stablefluids.h
index 03ad0a0..6f15548 100644
--- a/include/delfem2/fdm_stablefluids.h
+++ b/include/delfem2/fdm_stablefluids.h
@@ -5,6 +5,8 @@
 #ifndef DFM2_FDM_STABLEFLUIDS_H_
 #define DFM2_FDM_STABLEFLUIDS_H_
 
+#include <cmath>
+#include <iostream>
 #include <cassert>
 #include <array>
 
diff --git a/include/delfem2/fem_beam2.h b/include/delfem2/fem_beam2.h
index fe0133c..b060611 100644
--- a/include/delfem2/fem_beam2.h
+++ b/include/delfem2/fem_beam2.h
@@ -5,6 +5,9 @@
 #ifndef FEM_BEAM2_H_
 #define FEM_BEAM2_H_
 
+#include <cmath>
+#include <algorithm>
+
 namespace delfem2 {
 
 template <typename T>
diff --git a/include/delfem2/garment.h b/include/delfem2/garment.h
index 41856b9..442e1db 100644
--- a/include/delfem2/garment.h
+++ b/include/delfem2/garment.h
@@ -17,6 +17,7 @@
 #include "delfem2/msh_normal.h"
 #include "delfem2/vec3.h"
 #include "delfem2/mat3.h"
+#include "delfem2/mat3_funcs.h"
 #include "delfem2/srch_trimesh3_class.h"
 #include "delfem2/srch_bv3_aabb.h"
 #include "delfem2/srch_bv3_sphere.h"
diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 6612a0f..0ba8dcc 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -16,6 +16,9 @@
 #ifndef DFM2_CURVE_CUBIC_BEZIER_H
 #define DFM2_CURVE_CUBIC_BEZIER_H
 
+#include <cmath>
+#include <array>
+#include <tuple>
 #include <cassert>
 #include <cstdio>
 #include <vector>
diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 3b4b2b4..ef2526f 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -16,6 +16,8 @@
 #ifndef DFM2_CURVE_QUADRATIC_H
 #define DFM2_CURVE_QUADRATIC_H
 
+#include <cmath>
+#include <array>
 #include <cassert>
 #include <cstdio>
 #include <vector>
diff --git a/include/delfem2/geo_gjksat2.h b/include/delfem2/geo_gjksat2.h
index 3d7c590..5616199 100644
--- a/include/delfem2/geo_gjksat2.h
+++ b/include/delfem2/geo_gjksat2.h
@@ -5,6 +5,8 @@
 #ifndef GJK2_GEO_GJK2_H_
 #define GJK2_GEO_GJK2_H_
 
+#include <cassert>
+#include <limits>
 #include <vector>
 #include <climits>
 #include <utility>  // for pair
diff --git a/include/delfem2/geo_meta_funcs.h b/include/delfem2/geo_meta_funcs.h
index b83cd64..f179581 100644
--- a/include/delfem2/geo_meta_funcs.h
+++ b/include/delfem2/geo_meta_funcs.h
@@ -5,6 +5,10 @@
 #ifndef GEO_META_FUNCS_H_
 #define GEO_META_FUNCS_H_
 
+#include <array>
+#include <type_traits>
+#include <cstddef>
+
 namespace delfem2 {
 
 template<class T, int N>
diff --git a/include/delfem2/grid3hash.h b/include/delfem2/grid3hash.h
index 3829d18..608b9fc 100644
--- a/include/delfem2/grid3hash.h
+++ b/include/delfem2/grid3hash.h
@@ -1,6 +1,10 @@
 #ifndef DFM2_GRID3HASH
 #define DFM2_GRID3HASH
 
+#include <cmath>
+#include <functional>
+#include <cstddef>
+
 namespace delfem2 {
 
 class GridCoordinate3 {
diff --git a/include/delfem2/lp.h b/include/delfem2/lp.h
index 4c6d621..dafa129 100644
--- a/include/delfem2/lp.h
+++ b/include/delfem2/lp.h
@@ -8,6 +8,8 @@
 #ifndef DFM2_LP_H
 #define DFM2_LP_H
 
+#include <iostream>
+#include <map>
 #include <math.h>
 #include <vector>
 
diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..189f54f 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -1,6 +1,9 @@
 #ifndef DFM2_LS_PENTADIAGONAL_H
 #define DFM2_LS_PENTADIAGONAL_H
 
+#include <cstddef>
+#include <vector>
+#include <cmath>
 #include <cassert>
 
 #include "delfem2/matn.h"
diff --git a/include/delfem2/ls_tridiagonal.h b/include/delfem2/ls_tridiagonal.h
index a675df0..f72ce8b 100644
--- a/include/delfem2/ls_tridiagonal.h
+++ b/include/delfem2/ls_tridiagonal.h
@@ -1,6 +1,10 @@
 #ifndef DFM2_LS_TRIDIAGONAL_H
 #define DFM2_LS_TRIDIAGONAL_H
 
+#include <cassert>
+#include <cstddef>
+#include <vector>
+
 #include "delfem2/matn.h"
 
 namespace delfem2 {
diff --git a/include/delfem2/matn.h b/include/delfem2/matn.h
index 320a08f..2ccd956 100644
--- a/include/delfem2/matn.h
+++ b/include/delfem2/matn.h
@@ -8,6 +8,9 @@
 #ifndef DFEM2_MATN_H
 #define DFEM2_MATN_H
 
+#include <cmath>
+#include <cstddef>
+
 /**
  * @file template class/function for vector/matrix where size is determined at compiling
  * @detail this header's extension is .hpp because it is purely template header
diff --git a/include/delfem2/metashape_camera.h b/include/delfem2/metashape_camera.h
index 251df51..8e250cd 100644
--- a/include/delfem2/metashape_camera.h
+++ b/include/delfem2/metashape_camera.h
@@ -5,6 +5,7 @@
 #ifndef METASHAPE_CAMERA_H_
 #define METASHAPE_CAMERA_H_
 
+#include <climits>
 #include <string>
 
 #include "delfem2/cvcamera.h"
diff --git a/include/delfem2/noise.h b/include/delfem2/noise.h
index 1afa41f..4092e24 100644
--- a/include/delfem2/noise.h
+++ b/include/delfem2/noise.h
@@ -8,6 +8,8 @@
 #ifndef DFM2_NOISE_H
 #define DFM2_NOISE_H
 
+#include <cstdlib>
+#include <cmath>
 #include <cassert>
 #include <vector>
 
diff --git a/include/delfem2/polyline_elastic_rod2.h b/include/delfem2/polyline_elastic_rod2.h
index e49845a..5986ea1 100644
--- a/include/delfem2/polyline_elastic_rod2.h
+++ b/include/delfem2/polyline_elastic_rod2.h
@@ -5,6 +5,8 @@
 #ifndef POLYLINE_ELASTIC_EDIT_ROD2_H_
 #define POLYLINE_ELASTIC_EDIT_ROD2_H_
 
+#include <vector>
+#include <cmath>
 #include <array>
 
 #include "delfem2/ls_pentadiagonal.h"
diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 38dd232..0812699 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -5,6 +5,10 @@
 #ifndef POLYNOMIAL_ROOT_H_
 #define POLYNOMIAL_ROOT_H_
 
+#include <cassert>
+#include <cmath>
+#include <vector>
+#include <cstddef>
 #include <stack>
 #include <tuple>
 
diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..476261b 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -13,6 +13,7 @@
 #ifndef DFM2_BVH_H
 #define DFM2_BVH_H
 
+#include <cstdint>
 #include <stack>
 #include <vector>
 #include <set>
diff --git a/include/delfem2/srch_kdtree.h b/include/delfem2/srch_kdtree.h
index 796729d..f20c587 100644
--- a/include/delfem2/srch_kdtree.h
+++ b/include/delfem2/srch_kdtree.h
@@ -1,6 +1,8 @@
 #ifndef DFM2_KDT_H
 #define DFM2_KDT_H
 
+#include <cstdint>
+#include <limits>
 #include <cassert>
 #include <vector>
 #include <algorithm>
diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..d090771 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -12,6 +12,7 @@
 #ifndef DFM2_SRCHBI_V3BVH_H
 #define DFM2_SRCHBI_V3BVH_H
 
+#include <cstdint>
 #include <stdio.h>
 
 #include "delfem2/srch_bvh.h"
diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..57beaa2 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -1,6 +1,8 @@
 #ifndef DFM2_SRCHGRID_H
 #define DFM2_SRCHGRID_H
 
+#include <cassert>
+#include <cmath>
 #include <vector>
 #include <algorithm> // for sort
 
diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 74e2bbf..9b9e001 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -8,6 +8,8 @@
 #ifndef DFM2_THREAD_H
 #define DFM2_THREAD_H
 
+#include <atomic>
+#include <vector>
 #include <functional>
 #include <future>
 #include <mutex>
diff --git a/include/delfem2/view_array2d.h b/include/delfem2/view_array2d.h
index b2162e6..6d89a6c 100644
--- a/include/delfem2/view_array2d.h
+++ b/include/delfem2/view_array2d.h
@@ -1,6 +1,8 @@
 #ifndef DFM2_VIEW_ARRAY2D_H
 #define DFM2_VIEW_ARRAY2D_H
 
+#include <cstddef>
+
 /**
  * view a raw array into array of array such as std::vector<dfm2::CVecXx> std::vector<Eigen::Vector2x>
  * @tparam REAL
-- 
2.43.0


From 26789fed9aaae7c59e11f40d69e728508b7ac437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 07/57] fix: functions defined in headers or header-included
 sources without inline (multiple definition in header-only mode)

---
 include/delfem2/4rotsym.h                   |  8 ++--
 include/delfem2/bem.cpp                     | 44 ++++++++++-----------
 include/delfem2/cad2.cpp                    |  2 +-
 include/delfem2/cad2_mesh_deformation.h     |  4 +-
 include/delfem2/cad3d.cpp                   | 44 ++++++++++-----------
 include/delfem2/cloth_internal.h            |  8 ++--
 include/delfem2/clusterpoints.cpp           |  6 +--
 include/delfem2/cvcamera.h                  |  8 ++--
 include/delfem2/defarap.cpp                 | 34 ++++++++--------
 include/delfem2/deflap.cpp                  | 38 +++++++++---------
 include/delfem2/dijkstra.h                  |  8 ++--
 include/delfem2/dtet_v3.cpp                 | 16 ++++----
 include/delfem2/expmap_geo3dijk.h           |  4 +-
 include/delfem2/fdm_stablefluids.h          | 14 +++----
 include/delfem2/fem_invertiblefem.h         |  4 +-
 include/delfem2/fem_mitc3.cpp               |  2 +-
 include/delfem2/fem_quadratic_bending.cpp   |  4 +-
 include/delfem2/fem_solidhyper.cpp          | 12 +++---
 include/delfem2/fem_solidlinear.cpp         |  2 +-
 include/delfem2/fem_stvk.cpp                |  2 +-
 include/delfem2/garment.h                   |  2 +-
 include/delfem2/geo_curve_ndegree.h         |  2 +-
 include/delfem2/grid2.h                     |  4 +-
 include/delfem2/grid3hash.h                 |  8 ++--
 include/delfem2/gridcube.cpp                | 10 ++---
 include/delfem2/gridvoxel.cpp               | 24 +++++------
 include/delfem2/img_interpolation.cpp       |  2 +-
 include/delfem2/isrf_adf.cpp                | 16 ++++----
 include/delfem2/kinetic_damping.h           |  2 +-
 include/delfem2/lp.cpp                      | 14 +++----
 include/delfem2/matn.h                      |  8 ++--
 include/delfem2/metashape_camera.h          |  4 +-
 include/delfem2/msh_geodesic_polyhedron.cpp |  2 +-
 include/delfem2/msh_io_obj.cpp              |  2 +-
 include/delfem2/msh_unindexed.h             |  8 ++--
 include/delfem2/noise.h                     | 16 ++++----
 include/delfem2/opengl/old/color.cpp        |  4 +-
 include/delfem2/parse_math_expression.cpp   | 14 +++----
 include/delfem2/pbd_bending_for_dtri.cpp    |  2 +-
 include/delfem2/polyline_elastic_beam2.h    | 10 ++---
 include/delfem2/rgd_v2m3.cpp                | 10 ++---
 include/delfem2/rigopt.h                    |  2 +-
 include/delfem2/sampler_lloyd2.h            |  2 +-
 include/delfem2/slice.cpp                   | 10 ++---
 include/delfem2/srch_bruteforce.cpp         |  4 +-
 45 files changed, 223 insertions(+), 223 deletions(-)

diff --git a/include/delfem2/4rotsym.h b/include/delfem2/4rotsym.h
index b5d5438..8ec123b 100644
--- a/include/delfem2/4rotsym.h
+++ b/include/delfem2/4rotsym.h
@@ -20,7 +20,7 @@
 namespace delfem2
 {
 
-CVec3d FindNearestOrientation(
+inline CVec3d FindNearestOrientation(
     unsigned int& idiff,
     const CVec3d& o0,
     const CVec3d& n0,
@@ -51,7 +51,7 @@ CVec3d FindNearestOrientation(
   return d0new;
 }
 
-void Smooth4RotSym(
+inline void Smooth4RotSym(
     std::vector<double>& aOdir,
     const std::vector<double>& aNorm,
     const std::vector<unsigned int>& psup_ind,
@@ -77,7 +77,7 @@ void Smooth4RotSym(
   }
 }
 
-void Smooth4RotSym2(
+inline void Smooth4RotSym2(
     double* aOdir,
     unsigned int np,
     const unsigned int* psup_ind,
@@ -101,7 +101,7 @@ void Smooth4RotSym2(
   }
 }
 
-void Smooth4RotSym_RandomPermutation(
+inline void Smooth4RotSym_RandomPermutation(
     std::vector<double>& aOdir,
     std::vector<unsigned int>& permutation0,
     const std::vector<double>& aNorm,
diff --git a/include/delfem2/bem.cpp b/include/delfem2/bem.cpp
index 19b8391..6272ffe 100644
--- a/include/delfem2/bem.cpp
+++ b/include/delfem2/bem.cpp
@@ -26,14 +26,14 @@ DFM2_INLINE double dot(
   return s;
 }
 
-void normalize(std::vector<double> &v) {
+DFM2_INLINE void normalize(std::vector<double> &v) {
   const int n = (int) v.size();
   double sqlen = squaredNorm(v);
   double leninv = 1.0 / sqrt(sqlen);
   for (int i = 0; i < n; ++i) { v[i] *= leninv; }
 }
 
-CVec3d NormalTri(
+DFM2_INLINE CVec3d NormalTri(
     int itri,
     const std::vector<unsigned int> &aTri,
     const std::vector<double> &aXYZ) {
@@ -54,7 +54,7 @@ CVec3d NormalTri(
 // ---------------------------
 // linear algebra
 
-double delfem2::squaredNorm(const std::vector<double> &v) {
+DFM2_INLINE double delfem2::squaredNorm(const std::vector<double> &v) {
   const int n = (int) v.size();
   double s = 0;
   for (int i = 0; i < n; ++i) { s += v[i] * v[i]; }
@@ -62,7 +62,7 @@ double delfem2::squaredNorm(const std::vector<double> &v) {
 }
 
 // {y} = [A]{x}
-void delfem2::matVec(
+DFM2_INLINE void delfem2::matVec(
     std::vector<double> &y,
     const std::vector<double> &A,
     const std::vector<double> &x) {
@@ -81,7 +81,7 @@ void delfem2::matVec(
 // ---------------------------------------
 // Solve Matrix with BiCGSTAB Methods
 // ---------------------------------------
-bool delfem2::Solve_BiCGSTAB
+DFM2_INLINE bool delfem2::Solve_BiCGSTAB
     (double &conv_ratio, int &iteration,
      std::vector<double> &u_vec,
      const std::vector<double> &A,
@@ -269,7 +269,7 @@ const static double TriGauss[6][16][3] =
         }
     };
 
-void delfem2::makeLinearSystem_PotentialFlow_Order1st(
+DFM2_INLINE void delfem2::makeLinearSystem_PotentialFlow_Order1st(
     std::vector<double> &A,
     std::vector<double> &f,
     //
@@ -329,7 +329,7 @@ void delfem2::makeLinearSystem_PotentialFlow_Order1st(
   }
 }
 
-delfem2::CVec3d delfem2::evaluateField_PotentialFlow_Order1st(
+DFM2_INLINE delfem2::CVec3d delfem2::evaluateField_PotentialFlow_Order1st(
     double &phi_pos,
     const CVec3d &pos,
     const CVec3d &velo_inf,
@@ -383,7 +383,7 @@ delfem2::CVec3d delfem2::evaluateField_PotentialFlow_Order1st(
   return gradphi_pos;
 }
 
-void delfem2::makeLinearSystem_PotentialFlow_Order0th(
+DFM2_INLINE void delfem2::makeLinearSystem_PotentialFlow_Order0th(
     std::vector<double> &A,
     std::vector<double> &f,
     //
@@ -452,7 +452,7 @@ void delfem2::makeLinearSystem_PotentialFlow_Order0th(
   */
 }
 
-void delfem2::evaluateField_PotentialFlow_Order0th(
+DFM2_INLINE void delfem2::evaluateField_PotentialFlow_Order0th(
     double &phi_pos,
     CVec3d &gradphi_pos,
     //
@@ -519,7 +519,7 @@ void delfem2::evaluateField_PotentialFlow_Order0th(
 
 // ---------------------------------------------
 
-void delfem2::BEM_VortexSheet_Coeff_0th(
+DFM2_INLINE void delfem2::BEM_VortexSheet_Coeff_0th(
     double aC[4],
     const CVec3d &x0,
     const CVec3d &x1,
@@ -568,7 +568,7 @@ void delfem2::BEM_VortexSheet_Coeff_0th(
   }
 }
 
-void delfem2::makeLinearSystem_VortexSheet_Order0th(
+DFM2_INLINE void delfem2::makeLinearSystem_VortexSheet_Order0th(
     std::vector<double> &A,
     std::vector<double> &f,
     // --
@@ -619,7 +619,7 @@ void delfem2::makeLinearSystem_VortexSheet_Order0th(
   }
 }
 
-delfem2::CVec3d delfem2::evaluateField_VortexSheet_Order0th
+DFM2_INLINE delfem2::CVec3d delfem2::evaluateField_VortexSheet_Order0th
     (const CVec3d &pos,
      const std::vector<double> &aValSrf,
         //
@@ -666,7 +666,7 @@ delfem2::CVec3d delfem2::evaluateField_VortexSheet_Order0th
 
 // -------------------------------------------------
 
-delfem2::CVec3d delfem2::veloVortexParticle(
+DFM2_INLINE delfem2::CVec3d delfem2::veloVortexParticle(
     const CVec3d &pos_eval,
     const CVec3d &pos_vp,
     const CVec3d &circ_vp,
@@ -681,7 +681,7 @@ delfem2::CVec3d delfem2::veloVortexParticle(
   return g0 * circ_vp.cross(v);
 }
 
-delfem2::CMat3d delfem2::gradveloVortexParticle(
+DFM2_INLINE delfem2::CMat3d delfem2::gradveloVortexParticle(
     CVec3d &velo_eval,
     const CVec3d &pos_eval,
     const CVec3d &pos_vp,
@@ -702,7 +702,7 @@ delfem2::CMat3d delfem2::gradveloVortexParticle(
   return m0 + g0 * CMat3d(Mat3_Spin(circ_vp));
 }
 
-delfem2::CVec3d delfem2::veloVortexParticles
+DFM2_INLINE delfem2::CVec3d delfem2::veloVortexParticles
     (const CVec3d &p0,
      const std::vector<CVortexParticle> &aVortexParticle,
      int ivp_self) {
@@ -715,7 +715,7 @@ delfem2::CVec3d delfem2::veloVortexParticles
   return velo_res;
 }
 
-delfem2::CMat3d delfem2::gradveloVortexParticles
+DFM2_INLINE delfem2::CMat3d delfem2::gradveloVortexParticles
     (CVec3d &velo,
      const CVec3d &p0,
      const std::vector<CVortexParticle> &aVortexParticle,
@@ -733,7 +733,7 @@ delfem2::CMat3d delfem2::gradveloVortexParticles
   return m_res;
 }
 
-void delfem2::setGradVeloVortexParticles
+DFM2_INLINE void delfem2::setGradVeloVortexParticles
     (std::vector<CVortexParticle> &aVortexParticle) {
   for (unsigned int ivp = 0; ivp < aVortexParticle.size(); ++ivp) {
     CVortexParticle &vp = aVortexParticle[ivp];
@@ -787,7 +787,7 @@ void CGrid_Vortex::drawBoundingBox() const
  */
 
 
-void delfem2::viscousityVortexParticleGrid
+DFM2_INLINE void delfem2::viscousityVortexParticleGrid
     (std::vector<CVortexParticle> &aVortexParticle, CGrid_Vortex &grid, double resolution) {
   grid.h = resolution;
   const double h = grid.h;
@@ -915,7 +915,7 @@ void delfem2::viscousityVortexParticleGrid
 
 // -----------------------------------
 
-std::complex<double> delfem2::evaluateField_Helmholtz_Order0th(
+DFM2_INLINE std::complex<double> delfem2::evaluateField_Helmholtz_Order0th(
     const std::vector<std::complex<double>> &aSol,
     const CVec3d &p,
     const CVec3d &pos_source,
@@ -950,7 +950,7 @@ std::complex<double> delfem2::evaluateField_Helmholtz_Order0th(
 
 // --------------------------------------------------------
 
-void delfem2::Helmholtz_TransferOrder1st_PntTri
+DFM2_INLINE void delfem2::Helmholtz_TransferOrder1st_PntTri
     (std::complex<double> aC[3],
      const CVec3d &p0,
      const CVec3d &q0, const CVec3d &q1, const CVec3d &q2,
@@ -980,7 +980,7 @@ void delfem2::Helmholtz_TransferOrder1st_PntTri
   }
 }
 
-std::complex<double> delfem2::evaluateField_Helmholtz_Order1st(
+DFM2_INLINE std::complex<double> delfem2::evaluateField_Helmholtz_Order1st(
     const std::vector<std::complex<double>> &aSol,
     const CVec3d &p,
     const CVec3d &pos_source,
@@ -1050,7 +1050,7 @@ int ngauss)
 }
 */
 
-delfem2::CVec3d delfem2::evaluateField_PotentialFlow
+DFM2_INLINE delfem2::CVec3d delfem2::evaluateField_PotentialFlow
     (const std::vector<double> &aSol,
      const CVec3d &p,
      const std::vector<unsigned int> &aTri,
diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..617b1fe 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -224,7 +224,7 @@ DFM2_INLINE double delfem2::CCad2D_EdgeGeo::ArcLength() const {
   return delfem2::Distance(p0, p1);
 }
 
-double delfem2::CCad2D_EdgeGeo::AreaEnclosingOrigin() const {
+DFM2_INLINE double delfem2::CCad2D_EdgeGeo::AreaEnclosingOrigin() const {
   if (this->type_edge == BEZIER_QUADRATIC) {
     return delfem2::Area_QuadraticBezierCurve2<CVec2d>(
       p0,
diff --git a/include/delfem2/cad2_mesh_deformation.h b/include/delfem2/cad2_mesh_deformation.h
index 10a87bd..c2a27cf 100644
--- a/include/delfem2/cad2_mesh_deformation.h
+++ b/include/delfem2/cad2_mesh_deformation.h
@@ -9,7 +9,7 @@
 #include "delfem2/cad2.h"
 #include "delfem2/cad2_mesher.h"
 
-void SetCadMeshDeformationWeightVtx(
+inline void SetCadMeshDeformationWeightVtx(
     std::vector<double> &vtx_w,
     unsigned int vertex_idx,
     const delfem2::CCad2D &cad,
@@ -53,7 +53,7 @@ void SetCadMeshDeformationWeightVtx(
   }
 }
 
-void SetCadMeshDeformationWeightEdge(
+inline void SetCadMeshDeformationWeightEdge(
     std::vector<double> &vtx_w,
     unsigned int edge_idx,
     const delfem2::CCad2D &cad,
diff --git a/include/delfem2/cad3d.cpp b/include/delfem2/cad3d.cpp
index 3ba1ba4..fad7417 100644
--- a/include/delfem2/cad3d.cpp
+++ b/include/delfem2/cad3d.cpp
@@ -355,7 +355,7 @@ DFM2_INLINE void AddCube(
 // ------------------------------------
 
 
-bool delfem2::CCad3D_Edge::isPick(
+DFM2_INLINE bool delfem2::CCad3D_Edge::isPick(
     double &ratio,
     const CVec2d &sp0,
     const float mMV[16],
@@ -379,7 +379,7 @@ bool delfem2::CCad3D_Edge::isPick(
 
 // -----------------------------------------------
 
-void delfem2::CCad3D_Face::Initialize(
+DFM2_INLINE void delfem2::CCad3D_Face::Initialize(
     const std::vector<CCad3D_Vertex> &aVertex,
     const std::vector<CCad3D_Edge> &aEdge,
     [[maybe_unused]] double elen_) {
@@ -500,7 +500,7 @@ void delfem2::CCad3D_Face::Initialize(
   MovePoints(aVertex, aEdge);
 }
 
-void delfem2::CCad3D_Face::MovePoints(
+DFM2_INLINE void delfem2::CCad3D_Face::MovePoints(
     const std::vector<CCad3D_Vertex> &aVertex,
     const std::vector<CCad3D_Edge> &aEdge) {
   aXYZ.resize(aPInfo.size() * 3);
@@ -611,7 +611,7 @@ void delfem2::CCad3D_Face::MovePoints(
 
 // ---------------------------------------------
 
-unsigned int delfem2::AddPointEdge(
+DFM2_INLINE unsigned int delfem2::AddPointEdge(
     unsigned int ie_div,
     double ratio_edge,
     std::vector<CCad3D_Vertex> &aVertex,
@@ -668,7 +668,7 @@ unsigned int delfem2::AddPointEdge(
   return iv_new;
 }
 
-void delfem2::ConectEdge(
+DFM2_INLINE void delfem2::ConectEdge(
     int iv0,
     int iv1,
     int iface_div,
@@ -734,7 +734,7 @@ void delfem2::ConectEdge(
   }
 }
 
-void delfem2::MakeItSmooth
+DFM2_INLINE void delfem2::MakeItSmooth
     (std::vector<CCad3D_Vertex> &aVertex,
      std::vector<CCad3D_Edge> &aEdge,
      std::vector<CCad3D_Face> &aFace) {
@@ -772,7 +772,7 @@ void delfem2::MakeItSmooth
   }
 }
 
-void delfem2::findEdgeGroup(
+DFM2_INLINE void delfem2::findEdgeGroup(
     std::vector<std::pair<unsigned int, bool> > &aIE,
     unsigned int iedge0,
     [[maybe_unused]] std::vector<CCad3D_Vertex> &aVertex,
@@ -829,7 +829,7 @@ void delfem2::findEdgeGroup(
   aIE.assign(deqIE.begin(), deqIE.end());
 }
 
-void delfem2::AddSphere_XSym
+DFM2_INLINE void delfem2::AddSphere_XSym
     (std::vector<CCad3D_Vertex> &aVertex,
      std::vector<CCad3D_Edge> &aEdge,
      std::vector<CCad3D_Face> &aFace,
@@ -913,7 +913,7 @@ void delfem2::AddSphere_XSym
   MakeItSmooth(aVertex, aEdge, aFace);
 }
 
-bool delfem2::FindFittingPoint(
+DFM2_INLINE bool delfem2::FindFittingPoint(
     CVec2d &p2d_near,
     CVec2d &p2d_norm,
     const CVec2d &p2d_org,
@@ -969,7 +969,7 @@ bool delfem2::FindFittingPoint(
   return true;
 }
 
-std::vector<int> delfem2::getPointsInEdges(
+DFM2_INLINE std::vector<int> delfem2::getPointsInEdges(
     const std::vector<std::pair<unsigned int, bool> > &aIE_picked,
     const std::vector<CCad3D_Edge> &aEdge) {
   std::vector<int> aIP;
@@ -988,7 +988,7 @@ std::vector<int> delfem2::getPointsInEdges(
   return aIP;
 }
 
-bool delfem2::MovePointsAlongSketch(
+DFM2_INLINE bool delfem2::MovePointsAlongSketch(
     std::vector<CCad3D_Vertex> &aVertex,
     std::vector<CCad3D_Edge> &aEdge,
     std::vector<CCad3D_Face> &aFace,
@@ -1046,7 +1046,7 @@ bool delfem2::MovePointsAlongSketch(
   return is_moved;
 }
 
-void delfem2::DivideFace
+DFM2_INLINE void delfem2::DivideFace
     (int ifc,
      const CVec3d &org, int inorm,
      std::vector<CCad3D_Vertex> &aVertex,
@@ -1085,7 +1085,7 @@ void delfem2::DivideFace
   }
 }
 
-void delfem2::BuildTriMesh
+DFM2_INLINE void delfem2::BuildTriMesh
     (std::vector<double> &aXYZ,
      std::vector<unsigned int> &aTri,
      std::vector<unsigned int> &aTriSuTri,
@@ -1227,7 +1227,7 @@ void delfem2::BuildTriMesh
 
 }
 
-void delfem2::UpdateTriMesh(
+DFM2_INLINE void delfem2::UpdateTriMesh(
     std::vector<double> &aXYZ,
     std::vector<double> &aNorm,
     // ---------------------
@@ -1270,7 +1270,7 @@ void delfem2::UpdateTriMesh(
 
 }
 
-void delfem2::CCad3D::Pick(
+DFM2_INLINE void delfem2::CCad3D::Pick(
     const CVec3d &src_pick,
     const CVec3d &dir_pick,
     const CVec2d &sp0,
@@ -1422,7 +1422,7 @@ void delfem2::CCad3D::Pick(
   }
 }
 
-void delfem2::CCad3D::MouseUp
+DFM2_INLINE void delfem2::CCad3D::MouseUp
     (float mMV[16],
      float mPj[16], double view_height) {
 
@@ -1444,7 +1444,7 @@ void delfem2::CCad3D::MouseUp
   }
 }
 
-bool delfem2::CCad3D::ReflectChangeForCurveAndSurface
+DFM2_INLINE bool delfem2::CCad3D::ReflectChangeForCurveAndSurface
     (std::vector<int> &aIsMoved_Edge,
      const std::vector<int> &aIsMoved_Vtx) {
   bool is_edit = false;
@@ -1475,7 +1475,7 @@ bool delfem2::CCad3D::ReflectChangeForCurveAndSurface
   return is_edit;
 }
 
-bool delfem2::CCad3D::MouseMotion(
+DFM2_INLINE bool delfem2::CCad3D::MouseMotion(
     const CVec3d &src_pick,
     const CVec3d &dir_pick,
     const CVec2d &sp0,
@@ -1553,7 +1553,7 @@ bool delfem2::CCad3D::MouseMotion(
   return false;
 }
 
-void delfem2::CCad3D::MouseDown
+DFM2_INLINE void delfem2::CCad3D::MouseDown
     (const CVec3d &src_pick, const CVec3d &dir_pick,
      const CVec2d &sp0, float mMV[16], float mPj[16],
      double view_height) {
@@ -1586,7 +1586,7 @@ void delfem2::CCad3D::MouseDown
   }
 }
 
-bool delfem2::CCad3D::isSym(int iv) const {
+DFM2_INLINE bool delfem2::CCad3D::isSym(int iv) const {
   for (const auto &ie: aEdge) {
     if (!ie.is_sim) continue;
     if (ie.iv0 == iv) return true;
@@ -1595,7 +1595,7 @@ bool delfem2::CCad3D::isSym(int iv) const {
   return false;
 }
 
-void delfem2::CCad3D::WriteFile(std::ofstream &fout) const {
+DFM2_INLINE void delfem2::CCad3D::WriteFile(std::ofstream &fout) const {
   fout << aVertex.size() << std::endl;
   for (std::size_t iv = 0; iv < aVertex.size(); ++iv) {
     fout << " " << iv << std::endl;
@@ -1615,7 +1615,7 @@ void delfem2::CCad3D::WriteFile(std::ofstream &fout) const {
   }
 }
 
-void delfem2::CCad3D::ReadFile(std::ifstream &fin) {
+DFM2_INLINE void delfem2::CCad3D::ReadFile(std::ifstream &fin) {
   int nv = 0;
   fin >> nv;
   aVertex.resize(nv);
diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index ecdca65..7c87941 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -14,7 +14,7 @@ namespace dfm2 = delfem2;
 /**
  * @brief compute total energy and its first and second derivatives
  */
-void AddWdW_Cloth(
+inline void AddWdW_Cloth(
     double& W, // (out) energy
     std::vector<double>& dW, // (out) first derivative of energy
     //
@@ -91,7 +91,7 @@ double AddWdW_Gravity(
   return W;
 }
 
-void StepTime_InternalDynamics(
+inline void StepTime_InternalDynamics(
     std::vector<double>& aXYZ, // (in,out) deformed vertex positions
     std::vector<double>& aUVW, // (in,out) deformed vertex velocity
     delfem2::CMatrixSparse<double>& mat_A,
@@ -286,7 +286,7 @@ void StepTime_InternalDynamicsILU(
  * @param gravity (in) gravitatinal accereration
  * @param mass_point  (in) mass for a point
  */
-void UpdateIntermidiateVelocity
+inline void UpdateIntermidiateVelocity
 (std::vector<double>& aUVW,
  ////
  const std::vector<double>& aXYZ, // (in,out)
@@ -330,7 +330,7 @@ void UpdateIntermidiateVelocity
 
 
 // Setting problem here
-void SetClothShape_Square
+inline void SetClothShape_Square
 (std::vector<double>& aXYZ0, // (out) undeformed vertex positions
  std::vector<int>& aBCFlag, // (out) boundary condition flag (0:free 1:fixed)
  std::vector<unsigned int>& aTri, // (out) index of triangles
diff --git a/include/delfem2/clusterpoints.cpp b/include/delfem2/clusterpoints.cpp
index 17ae3eb..64811e4 100644
--- a/include/delfem2/clusterpoints.cpp
+++ b/include/delfem2/clusterpoints.cpp
@@ -15,11 +15,11 @@
 
 namespace delfem2::clusterpoints {
 
-double Dot3(const double p0[3], const double p1[3]) {
+DFM2_INLINE double Dot3(const double p0[3], const double p1[3]) {
   return p0[0] * p1[0] + p0[1] * p1[1] + p0[2] * p1[2];
 }
 
-double Length3(const double p[3]) {
+DFM2_INLINE double Length3(const double p[3]) {
   return sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
 }
 
@@ -44,7 +44,7 @@ public:
   unsigned int ipsup;
 };
 
-unsigned int Find_IndexPoint_From_IndexPsup(
+DFM2_INLINE unsigned int Find_IndexPoint_From_IndexPsup(
     unsigned int ipsup,
     const unsigned int* psup_ind,
     const unsigned int* psup)
diff --git a/include/delfem2/cvcamera.h b/include/delfem2/cvcamera.h
index b621f27..48bdb63 100644
--- a/include/delfem2/cvcamera.h
+++ b/include/delfem2/cvcamera.h
@@ -16,7 +16,7 @@ class CCvCamera {
   float K[9];
 };
 
-bool ReadCamera(
+inline bool ReadCamera(
     std::vector<CCvCamera> &aCamera,
     const std::string &path_file) {
   std::ifstream fin(path_file);
@@ -36,7 +36,7 @@ bool ReadCamera(
   return true;
 }
 
-void SetCameraInteriorMat(
+inline void SetCameraInteriorMat(
     float *K,
     unsigned int width,
     unsigned int height,
@@ -95,7 +95,7 @@ void ProjectionCameraWithCalibration(
   coord_image[1] = img_height * 0.5 + cy + f * y1;
 }
 
-std::array<float, 16>
+inline std::array<float, 16>
 Mat4_CameraInternal_MetashapePinhole(
     float f,
     float cx,
@@ -109,7 +109,7 @@ Mat4_CameraInternal_MetashapePinhole(
       0, 0, 1, 0};
 }
 
-std::array<float, 16>
+inline std::array<float, 16>
 Mat4_Image2Screen(
     float width,
     float height,
diff --git a/include/delfem2/defarap.cpp b/include/delfem2/defarap.cpp
index 0d0c25d..3e5c895 100644
--- a/include/delfem2/defarap.cpp
+++ b/include/delfem2/defarap.cpp
@@ -77,7 +77,7 @@ DFM2_INLINE void dWddW_ArapEnergy(
 
 // ============================================
 
-delfem2::CDef_ArapEdgeLinearDisponly::CDef_ArapEdgeLinearDisponly(
+DFM2_INLINE delfem2::CDef_ArapEdgeLinearDisponly::CDef_ArapEdgeLinearDisponly(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri,
     double weight_bc0,
@@ -106,7 +106,7 @@ delfem2::CDef_ArapEdgeLinearDisponly::CDef_ArapEdgeLinearDisponly(
   vec_tmp.resize(ne * 3);
 }
 
-void delfem2::CDef_ArapEdgeLinearDisponly::JacobiTVecTmp(
+DFM2_INLINE void delfem2::CDef_ArapEdgeLinearDisponly::JacobiTVecTmp(
     double *y,
     double alpha, double beta) const {
   const size_t np = aBCFlag.size() / 3;
@@ -126,7 +126,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::JacobiTVecTmp(
   }
 }
 
-void delfem2::CDef_ArapEdgeLinearDisponly::MakeLinearSystem(
+DFM2_INLINE void delfem2::CDef_ArapEdgeLinearDisponly::MakeLinearSystem(
     double *aRhs,
     const double *aXYZ0,
     const double *aXYZ1) const {
@@ -158,7 +158,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::MakeLinearSystem(
    */
 }
 
-void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
+DFM2_INLINE void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
     double *y,
     double alpha,
     const double *vec,
@@ -187,7 +187,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::MatVec(
   }
 }
 
-void delfem2::CDef_ArapEdgeLinearDisponly::Deform(
+DFM2_INLINE void delfem2::CDef_ArapEdgeLinearDisponly::Deform(
     std::vector<double> &aXYZ1,
     const std::vector<double> &aXYZ0) {
   const size_t np = aBCFlag.size() / 3;
@@ -211,7 +211,7 @@ void delfem2::CDef_ArapEdgeLinearDisponly::Deform(
 
 // ======================================================
 
-void delfem2::CDef_ArapEdge::Init(
+DFM2_INLINE void delfem2::CDef_ArapEdge::Init(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri,
     double weight_bc0,
@@ -242,7 +242,7 @@ void delfem2::CDef_ArapEdge::Init(
   vec_tmp.resize(ne * 3);
 }
 
-void delfem2::CDef_ArapEdge::JacobiTVecTmp(
+DFM2_INLINE void delfem2::CDef_ArapEdge::JacobiTVecTmp(
     double *y,
     double alpha,
     double beta) const {
@@ -268,7 +268,7 @@ void delfem2::CDef_ArapEdge::JacobiTVecTmp(
   }
 }
 
-void delfem2::CDef_ArapEdge::MatVec(
+DFM2_INLINE void delfem2::CDef_ArapEdge::MatVec(
     double *y,
     double alpha,
     const double *vec,
@@ -302,7 +302,7 @@ void delfem2::CDef_ArapEdge::MatVec(
   }
 }
 
-void delfem2::CDef_ArapEdge::MakeLinearSystem(
+DFM2_INLINE void delfem2::CDef_ArapEdge::MakeLinearSystem(
     double *aRhs,
     const double *aXYZ0,
     const double *aXYZ1,
@@ -342,7 +342,7 @@ void delfem2::CDef_ArapEdge::MakeLinearSystem(
    */
 }
 
-void delfem2::CDef_ArapEdge::MakePreconditionerJacobi() {
+DFM2_INLINE void delfem2::CDef_ArapEdge::MakePreconditionerJacobi() {
   assert(!psup_ind.empty());
   const size_t np = psup_ind.size() - 1;
   aDiaInv.assign(np * 2 * 9, 0.0);
@@ -374,7 +374,7 @@ void delfem2::CDef_ArapEdge::MakePreconditionerJacobi() {
   }
 }
 
-void delfem2::CDef_ArapEdge::SolvePrecond(double *v) const {
+DFM2_INLINE void delfem2::CDef_ArapEdge::SolvePrecond(double *v) const {
   assert(!psup_ind.empty());
   const size_t np = psup_ind.size() - 1;
   for (unsigned int ip = 0; ip < np * 2; ++ip) {
@@ -386,7 +386,7 @@ void delfem2::CDef_ArapEdge::SolvePrecond(double *v) const {
   }
 }
 
-void delfem2::CDef_ArapEdge::Deform(
+DFM2_INLINE void delfem2::CDef_ArapEdge::Deform(
     std::vector<double> &aXYZ1,
     std::vector<double> &aQuat,
     const std::vector<double> &aXYZ0) {
@@ -433,7 +433,7 @@ void delfem2::CDef_ArapEdge::Deform(
 // ===========================================================
 // below: implementation of CDef_Arap class
 
-void delfem2::Deformer_Arap::Init(
+DFM2_INLINE void delfem2::Deformer_Arap::Init(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri,
     bool is_preconditioner) {
@@ -478,7 +478,7 @@ void delfem2::Deformer_Arap::Init(
 
 }
 
-void delfem2::Deformer_Arap::Deform(
+DFM2_INLINE void delfem2::Deformer_Arap::Deform(
     std::vector<double> &aXYZ1,
     std::vector<double> &aQuat1,
     const std::vector<double> &aXYZ0,
@@ -548,7 +548,7 @@ void delfem2::Deformer_Arap::Deform(
 
 }
 
-void delfem2::UpdateQuaternions_Svd(
+DFM2_INLINE void delfem2::UpdateQuaternions_Svd(
     std::vector<double> &aQuat1,
     const std::vector<double> &aXYZ0,
     const std::vector<double> &aXYZ1,
@@ -564,7 +564,7 @@ void delfem2::UpdateQuaternions_Svd(
 
 // ----------------------------------------------
 
-void delfem2::Deformer_Arap2::Init(
+DFM2_INLINE void delfem2::Deformer_Arap2::Init(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri,
     const std::vector<double> &vtx_quaternion,
@@ -612,7 +612,7 @@ void delfem2::Deformer_Arap2::Init(
   this->precond_.Decompose();
 }
 
-void delfem2::Deformer_Arap2::Deform(
+DFM2_INLINE void delfem2::Deformer_Arap2::Deform(
     std::vector<double> &aXYZ1,
     std::vector<double> &aQuat1,
     const std::vector<double> &aXYZ0,
diff --git a/include/delfem2/deflap.cpp b/include/delfem2/deflap.cpp
index efb93a8..83a1177 100644
--- a/include/delfem2/deflap.cpp
+++ b/include/delfem2/deflap.cpp
@@ -20,7 +20,7 @@
 
 namespace delfem2::defarap {
 
-void SetLinSys_LaplaceGraph_MeshTri3(
+DFM2_INLINE void SetLinSys_LaplaceGraph_MeshTri3(
     CMatrixSparse<double> &mat_A) {
   mat_A.setZero();
   for (unsigned int ip = 0; ip < mat_A.nrowblk_; ++ip) {
@@ -40,7 +40,7 @@ void SetLinSys_LaplaceGraph_MeshTri3(
 
 // ==================================================
 
-void delfem2::CDef_LaplacianLinearAsym::Init(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearAsym::Init(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri) {
   std::vector<unsigned int> psup_ind, psup;
@@ -61,7 +61,7 @@ void delfem2::CDef_LaplacianLinearAsym::Init(
                1.0, aXYZ0.data(), 0.0);
 }
 
-void delfem2::CDef_LaplacianLinearAsym::Deform(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearAsym::Deform(
     std::vector<double> &aXYZ1,
     const std::vector<double> &aXYZ0,
     const std::vector<int> &aBCFlag) {    // ----------
@@ -82,7 +82,7 @@ void delfem2::CDef_LaplacianLinearAsym::Deform(
 // ===================================================
 // below: implementation of CDef_LaplacianLinearGram
 
-void delfem2::CDef_LaplacianLinearGram::Init(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearGram::Init(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri,
     bool is_preconditioner0) {
@@ -105,7 +105,7 @@ void delfem2::CDef_LaplacianLinearGram::Init(
       -1.0, aXYZ0.data(), 0.0);
 }
 
-void delfem2::CDef_LaplacianLinearGram::SetBoundaryConditionToPreconditioner() {
+DFM2_INLINE void delfem2::CDef_LaplacianLinearGram::SetBoundaryConditionToPreconditioner() {
   if (!is_preconditioner) { return; }
   // ---------
   // make jacobi preconditioner
@@ -139,7 +139,7 @@ void delfem2::CDef_LaplacianLinearGram::SetBoundaryConditionToPreconditioner() {
   }
 }
 
-void delfem2::CDef_LaplacianLinearGram::Deform(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearGram::Deform(
     std::vector<double> &aXYZ1,
     const std::vector<double> &aXYZ0) const {
   vec_tmp0.resize(aXYZ0.size());
@@ -172,7 +172,7 @@ void delfem2::CDef_LaplacianLinearGram::Deform(
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) { aXYZ1[i] += aUpd[i]; }
 }
 
-void delfem2::CDef_LaplacianLinearGram::MatVec
+DFM2_INLINE void delfem2::CDef_LaplacianLinearGram::MatVec
     (double *y,
      double alpha, const double *vec, double beta) const {
   Mat.MatVec(vec_tmp2.data(),
@@ -187,7 +187,7 @@ void delfem2::CDef_LaplacianLinearGram::MatVec
 }
 
 // for preconditioner
-void delfem2::CDef_LaplacianLinearGram::SolvePrecond(double *v) const {
+DFM2_INLINE void delfem2::CDef_LaplacianLinearGram::SolvePrecond(double *v) const {
   const auto np = static_cast<unsigned int>(aBCFlag.size() / 3);
   for (unsigned int ip = 0; ip < np; ++ip) {
     double tmp[3];
@@ -205,7 +205,7 @@ void delfem2::CDef_LaplacianLinearGram::SolvePrecond(double *v) const {
 
 namespace delfem2::defarap {
 
-void DualLaplacianSymbolic_3x3(
+DFM2_INLINE void DualLaplacianSymbolic_3x3(
     std::vector<double> &eM,
     const std::vector<unsigned int> &aIP) {
   const auto nIP = static_cast<unsigned int>(aIP.size());
@@ -225,7 +225,7 @@ void DualLaplacianSymbolic_3x3(
 
 }
 
-void delfem2::CDef_LaplacianLinear::Init(
+DFM2_INLINE void delfem2::CDef_LaplacianLinear::Init(
     const std::vector<double> &aXYZ0,
     const std::vector<unsigned int> &aTri,
     bool is_preconditioner_) {
@@ -280,7 +280,7 @@ void delfem2::CDef_LaplacianLinear::Init(
   }
 }
 
-void delfem2::CDef_LaplacianLinear::SetValueToPreconditioner() {
+DFM2_INLINE void delfem2::CDef_LaplacianLinear::SetValueToPreconditioner() {
   if (!is_preconditioner) { return; }
   //
   const unsigned int np = Mat.nrowblk_;
@@ -338,7 +338,7 @@ void delfem2::CDef_LaplacianLinear::SetValueToPreconditioner() {
   }
 }
 
-void delfem2::CDef_LaplacianLinear::Deform(
+DFM2_INLINE void delfem2::CDef_LaplacianLinear::Deform(
     std::vector<double> &vtx_xyz_def,
     const std::vector<double> &vtx_xyz_ini) const {
   vec_tmp0.resize(vtx_xyz_ini.size());
@@ -372,7 +372,7 @@ void delfem2::CDef_LaplacianLinear::Deform(
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) { vtx_xyz_def[i] += aUpd[i]; }
 }
 
-void delfem2::CDef_LaplacianLinear::MatVec(
+DFM2_INLINE void delfem2::CDef_LaplacianLinear::MatVec(
     double *y,
     double alpha, const double *vec, double beta) const {
   Mat.MatVec(y,
@@ -400,7 +400,7 @@ void delfem2::CDef_LaplacianLinear::MatVec(
 
 namespace delfem2::defarap {
 
-void DualLaplacianSymbolic_1x1(
+DFM2_INLINE void DualLaplacianSymbolic_1x1(
     std::vector<double> &eM,
     const std::vector<unsigned int> &aIP) {
   const auto nIP = static_cast<unsigned int>(aIP.size());
@@ -420,7 +420,7 @@ void DualLaplacianSymbolic_1x1(
 
 }
 
-void delfem2::CDef_LaplacianLinearDegenerate::Init(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearDegenerate::Init(
     const std::vector<double> &vtx_xyz_ini,
     const std::vector<unsigned int> &tri_vtx,
     bool is_preconditioner_) {
@@ -478,7 +478,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::Init(
   }
 }
 
-void delfem2::CDef_LaplacianLinearDegenerate::SetBoundaryConditionToPreconditioner() {
+DFM2_INLINE void delfem2::CDef_LaplacianLinearDegenerate::SetBoundaryConditionToPreconditioner() {
   if (!is_preconditioner) { return; }
   // ---------
   // make jacobi preconditioner
@@ -514,7 +514,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::SetBoundaryConditionToPrecondition
   }
 }
 
-void delfem2::CDef_LaplacianLinearDegenerate::Deform(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearDegenerate::Deform(
     std::vector<double> &aXYZ1,
     const std::vector<double> &aXYZ0) const {
   vec_tmp0.resize(aXYZ0.size());
@@ -549,7 +549,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::Deform(
   for (unsigned int i = 0; i < aBCFlag.size(); ++i) { aXYZ1[i] += aUpd[i]; }
 }
 
-void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
+DFM2_INLINE void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
     double *y,
     double alpha, const double *vec, double beta) const {
   Mat.MatVecDegenerate(y,
@@ -570,7 +570,7 @@ void delfem2::CDef_LaplacianLinearDegenerate::MatVec(
   }
 }
 
-void delfem2::CDef_LaplacianLinearDegenerate::SolvePrecond(double *v) const {
+DFM2_INLINE void delfem2::CDef_LaplacianLinearDegenerate::SolvePrecond(double *v) const {
   const auto np = static_cast<unsigned int>(aBCFlag.size() / 3);
   for (unsigned int ip = 0; ip < np; ++ip) {
     double tmp[3];
diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..8193317 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -23,7 +23,7 @@ namespace delfem2 {
 
 namespace dijkstra {
 
-double Distance3(
+inline double Distance3(
     const double p0[3], const double p1[3])
 {
   return sqrt( (p1[0]-p0[0])*(p1[0]-p0[0]) + (p1[1]-p0[1])*(p1[1]-p0[1]) + (p1[2]-p0[2])*(p1[2]-p0[2]) );
@@ -54,7 +54,7 @@ public:
  * @param aElSuEl
  * @param nelem
  */
-void DijkstraElem_MeshElemTopo(
+inline void DijkstraElem_MeshElemTopo(
     std::vector<unsigned int> &aDist,
     std::vector<unsigned int>& aOrder,
     //
@@ -88,7 +88,7 @@ void DijkstraElem_MeshElemTopo(
   assert(icnt==nelem);
 }
 
-void Center_Elem3(
+inline void Center_Elem3(
     double p[3],
     unsigned int ielm1,
     const std::vector<unsigned int> &aTri,
@@ -156,7 +156,7 @@ void DijkstraElem_MeshElemGeo3(
 //  assert(icnt==nelem);
 }
 
-void MeshClustering(
+inline void MeshClustering(
     std::vector<unsigned int> &aFlgElm,
     //
     unsigned int ncluster,
diff --git a/include/delfem2/dtet_v3.cpp b/include/delfem2/dtet_v3.cpp
index 8bcda19..cf6af0b 100644
--- a/include/delfem2/dtet_v3.cpp
+++ b/include/delfem2/dtet_v3.cpp
@@ -875,7 +875,7 @@ bool delfem2::MakeTetSurTet(std::vector<CDynTet>& tet)
 }
  */
 
-bool delfem2::MakeOneTetSurNo
+DFM2_INLINE bool delfem2::MakeOneTetSurNo
  (const std::vector<CDynTet>& tet,
   std::vector<CDynPointTet>& point)
 {
@@ -1676,7 +1676,7 @@ bool CheckTri(const std::vector<STri3D>& tri )
 }
  */
 
-int delfem2::GetRelationshipTet(const unsigned int* aIP,
+DFM2_INLINE int delfem2::GetRelationshipTet(const unsigned int* aIP,
                                 const unsigned int* aJP)
 {
   for(int irel=0;irel<12;++irel){
@@ -1690,7 +1690,7 @@ int delfem2::GetRelationshipTet(const unsigned int* aIP,
   return -1;
 }
 
-bool delfem2::IsInsideCircumSphere(
+DFM2_INLINE bool delfem2::IsInsideCircumSphere(
                           const delfem2::CVec3d& p,
                           const delfem2::CDynTet t,
                           const delfem2::CVec3d& c,
@@ -1708,7 +1708,7 @@ bool delfem2::IsInsideCircumSphere(
   return sqrad > SquareDistance3(p,c)*4.0;
 }
 
-bool delfem2::CheckTet
+DFM2_INLINE bool delfem2::CheckTet
  (const std::vector<CDynTet>& aSTet,
   const std::vector<CDynPointTet>& aPo3D)
 {
@@ -1768,7 +1768,7 @@ bool delfem2::CheckTet
 }
 
 
-bool delfem2::CheckTet(const std::vector<CDynTet>& tet)
+DFM2_INLINE bool delfem2::CheckTet(const std::vector<CDynTet>& tet)
 {
 	std::cout << " *** CheckTet *** ";
 	
@@ -1805,7 +1805,7 @@ bool delfem2::CheckTet(const std::vector<CDynTet>& tet)
 
 // --------------------------------------------------------------
 
-void delfem2::AddPointTetDelaunay(
+DFM2_INLINE void delfem2::AddPointTetDelaunay(
     unsigned int ip_ins,
     unsigned int itet_ins,
     std::vector<CDynPointTet>& aPo3D,
@@ -2087,7 +2087,7 @@ void delfem2::AddPointTetDelaunay(
 
 // -------------------------------
 
-bool delfem2::MakeElemAroundEdge
+DFM2_INLINE bool delfem2::MakeElemAroundEdge
 ( ElemAroundEdge& elared,
  const int itet0,
  const int idedge0,
@@ -2291,7 +2291,7 @@ bool GetEdgeSwapPtnCrt5Elared
  */
 
 
-bool delfem2::MakeElemAroundPoint(
+DFM2_INLINE bool delfem2::MakeElemAroundPoint(
     ElemAroundPoint& elarpo,
     const unsigned int itet0,
     const unsigned int inoel0,
diff --git a/include/delfem2/expmap_geo3dijk.h b/include/delfem2/expmap_geo3dijk.h
index 65f71a2..7670dc2 100644
--- a/include/delfem2/expmap_geo3dijk.h
+++ b/include/delfem2/expmap_geo3dijk.h
@@ -204,7 +204,7 @@ public:
 };
 
 
-void TexPoint_TexElemFlag(
+inline void TexPoint_TexElemFlag(
     std::vector<double> &aTexP,
     const std::vector<double> &aXYZ,
     const std::vector<double> &aTexE,
@@ -235,7 +235,7 @@ void TexPoint_TexElemFlag(
   }
 }
 
-void FlatteringPattern(
+inline void FlatteringPattern(
     unsigned int &ielm_ker,
     CVec3d coordLocal[4],
     std::vector<double> &aTexP,
diff --git a/include/delfem2/fdm_stablefluids.h b/include/delfem2/fdm_stablefluids.h
index 6f15548..652307a 100644
--- a/include/delfem2/fdm_stablefluids.h
+++ b/include/delfem2/fdm_stablefluids.h
@@ -13,7 +13,7 @@
 #include "delfem2/fdm_array2.h"
 
 // Gauss-Seidel Iteration
-void SolvePoissionEquationOnGrid2ByGaussSeidelMethod(
+inline void SolvePoissionEquationOnGrid2ByGaussSeidelMethod(
     FdmArray2<double> &p,
     const FdmArray2<double> &d,
     double scale,
@@ -42,7 +42,7 @@ void SolvePoissionEquationOnGrid2ByGaussSeidelMethod(
   }
 }
 
-void Divergence_StaggerdGrid2(
+inline void Divergence_StaggerdGrid2(
     FdmArray2<double> &divag,
     int ni_grid,
     int nj_grid,
@@ -61,7 +61,7 @@ void Divergence_StaggerdGrid2(
   }
 }
 
-void Divergence_CellCenteredGrid2(
+inline void Divergence_CellCenteredGrid2(
     FdmArray2<double> &divag,
     int ni_grid,
     int nj_grid,
@@ -80,7 +80,7 @@ void Divergence_CellCenteredGrid2(
   }
 }
 
-void SubstructPressureGradient_StaggeredGrid2(
+inline void SubstructPressureGradient_StaggeredGrid2(
     FdmArray2<double> &velou,
     FdmArray2<double> &velov,
     int ni_grid,
@@ -106,7 +106,7 @@ void SubstructPressureGradient_StaggeredGrid2(
   }
 }
 
-void SubstructPressureGradient_CellCenteredGrid2(
+inline void SubstructPressureGradient_CellCenteredGrid2(
     FdmArray2<std::array<double, 2>> &velo,
     int ni_grid,
     int nj_grid,
@@ -126,7 +126,7 @@ void SubstructPressureGradient_CellCenteredGrid2(
   }
 }
 
-void AdvectionSemiLagrangian_StaggeredGrid2(
+inline void AdvectionSemiLagrangian_StaggeredGrid2(
     FdmArray2<double> &velou,
     FdmArray2<double> &velov,
     FdmArray2<std::array<double, 2>> &velou_tmp,
@@ -181,7 +181,7 @@ void AdvectionSemiLagrangian_StaggeredGrid2(
   }
 }
 
-void AdvectionSemiLagrangian_CellCenteredGrid2(
+inline void AdvectionSemiLagrangian_CellCenteredGrid2(
     FdmArray2<std::array<double, 2>> &velo,
     FdmArray2<std::array<double, 2>> &velo_tmp,
     int ni_grid,
diff --git a/include/delfem2/fem_invertiblefem.h b/include/delfem2/fem_invertiblefem.h
index 0d249c7..3131df1 100644
--- a/include/delfem2/fem_invertiblefem.h
+++ b/include/delfem2/fem_invertiblefem.h
@@ -15,7 +15,7 @@
 namespace delfem2 {
 
 // dPdF[k][l][i][j] = dP_kl / dF_ij
-double DiffPiolaKirchhoff1st(
+inline double DiffPiolaKirchhoff1st(
     delfem2::CMat3d &P0,
     double dPdF[3][3][3][3],
     const delfem2::CMat3d &U0,
@@ -52,7 +52,7 @@ double DiffPiolaKirchhoff1st(
   return W0;
 }
 
-double WdWddW_InvertibleFEM(
+inline double WdWddW_InvertibleFEM(
     double dW[4][3],
     double ddW[4][4][3][3],
     const double Pos[4][3],
diff --git a/include/delfem2/fem_mitc3.cpp b/include/delfem2/fem_mitc3.cpp
index 654666c..77c800e 100644
--- a/include/delfem2/fem_mitc3.cpp
+++ b/include/delfem2/fem_mitc3.cpp
@@ -194,7 +194,7 @@ DFM2_INLINE void delfem2::WdWddW_PlateBendingMITC3(
   }
 }
 
-void delfem2::MassLumped_ShellPlateBendingMITC3(
+DFM2_INLINE void delfem2::MassLumped_ShellPlateBendingMITC3(
     double *aM,
     double rho, double thick,
     const double *aXY, unsigned int nXY,
diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..75e8cc9 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -107,7 +107,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
 }
 
 namespace delfem2::fem_quadratic_bending {
-void DerDoubleAreaTri3D(
+DFM2_INLINE void DerDoubleAreaTri3D(
   double dAdC[3][3],
   const double c0[3],
   const double c1[3],
@@ -127,7 +127,7 @@ void DerDoubleAreaTri3D(
 
 
 
-void delfem2::WdWddW_QuadraticBending_Sensitivity(
+DFM2_INLINE void delfem2::WdWddW_QuadraticBending_Sensitivity(
   double ddW[4][4][3][3],
   double dW[4][3],
   double dRdC[4][4][3][3],
diff --git a/include/delfem2/fem_solidhyper.cpp b/include/delfem2/fem_solidhyper.cpp
index b38d0fb..c7b7ce5 100644
--- a/include/delfem2/fem_solidhyper.cpp
+++ b/include/delfem2/fem_solidhyper.cpp
@@ -7,7 +7,7 @@
 #include "delfem2/femutil.h"
 #include "delfem2/quadrature.h"
 
-void MakeStressConstitute_Hyper2D(
+DFM2_INLINE void MakeStressConstitute_Hyper2D(
   const double c1,
   const double c2,
   const double dudx[][2],
@@ -136,7 +136,7 @@ void MakeStressConstitute_Hyper2D(
 namespace delfem2 {
 namespace femsolidhyper {
 
-double WdWdCddWddC_Solid3Compression(
+DFM2_INLINE double WdWdCddWddC_Solid3Compression(
   double dWdC2[],
   double ddWddC2[][6],
   //
@@ -190,7 +190,7 @@ double WdWdCddWddC_Solid3Compression(
  * @param[in] dudx displacement gradient tensor
  * @return density of elastic potential energy
  */
-double WdWdCddWddC_Solid3HyperMooneyrivlin2Reduced(
+DFM2_INLINE double WdWdCddWddC_Solid3HyperMooneyrivlin2Reduced(
   double dWdC2[],
   double ddWddC2[][6],
   //
@@ -304,7 +304,7 @@ double WdWdCddWddC_Solid3HyperMooneyrivlin2Reduced(
   return W;
 }
 
-void AdddWddW_EnergyGradHessian(
+DFM2_INLINE void AdddWddW_EnergyGradHessian(
   double dW[8][3],
   double ddW[8][8][3][3],
   const double dudx[3][3],
@@ -376,7 +376,7 @@ void AdddWddW_EnergyGradHessian(
 }
 }
 
-void delfem2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(
+DFM2_INLINE void delfem2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(
   double &W,
   double dW[8][3],
   double ddW[8][8][3][3],
@@ -412,7 +412,7 @@ void delfem2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(
   } // r3
 }
 
-void delfem2::AddWdWddW_Solid3Compression_Hex(
+DFM2_INLINE void delfem2::AddWdWddW_Solid3Compression_Hex(
   double &W,
   double dW[8][3],
   double ddW[8][8][3][3],
diff --git a/include/delfem2/fem_solidlinear.cpp b/include/delfem2/fem_solidlinear.cpp
index 7503d2c..2ea9ff4 100644
--- a/include/delfem2/fem_solidlinear.cpp
+++ b/include/delfem2/fem_solidlinear.cpp
@@ -203,7 +203,7 @@ DFM2_INLINE void delfem2::EMat_SolidDynamicLinear_Tri2D(
 // -----------------------------------------
 // below: quad
 
-void delfem2::EMat_SolidLinear2_QuadOrth_GaussInt(
+DFM2_INLINE void delfem2::EMat_SolidLinear2_QuadOrth_GaussInt(
   double emat[4][4][2][2],
   double lx,
   double ly,
diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..90a6af5 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -373,7 +373,7 @@ DFM2_INLINE void delfem2::WdWddW_CST(
   }
 }
 
-void delfem2::WdWddW_CST_Sensitivity(
+DFM2_INLINE void delfem2::WdWddW_CST_Sensitivity(
   double Kmat[3][3][3][3], 
   double Res[3][3], 
   double dRdC[3][3][3][3],
diff --git a/include/delfem2/garment.h b/include/delfem2/garment.h
index 442e1db..815dd11 100644
--- a/include/delfem2/garment.h
+++ b/include/delfem2/garment.h
@@ -63,7 +63,7 @@ public:
 /**
  * @brief meshing clothing pattern such that the opposing sides of the cloth panel have the same number of discretization
  */
-void MeshingPattern
+inline void MeshingPattern
  (std::vector<CDynTri>& aETri,
   std::vector<CVec2d>& aVec2,
   std::vector<double>& aXYZ, // deformed vertex positions
diff --git a/include/delfem2/geo_curve_ndegree.h b/include/delfem2/geo_curve_ndegree.h
index c179010..784974c 100644
--- a/include/delfem2/geo_curve_ndegree.h
+++ b/include/delfem2/geo_curve_ndegree.h
@@ -22,7 +22,7 @@
 
 namespace delfem2 {
 
-void FlatKnot(
+inline void FlatKnot(
   std::vector<double> &aKnotFlat,
   const std::vector<int> &aKnotMulti,
   const std::vector<double> &aKnot) {
diff --git a/include/delfem2/grid2.h b/include/delfem2/grid2.h
index 3925c1e..cf00f53 100644
--- a/include/delfem2/grid2.h
+++ b/include/delfem2/grid2.h
@@ -22,7 +22,7 @@
 
 namespace delfem2 {
 
-void LaplacianGrid(
+inline void LaplacianGrid(
     std::vector<float> &aZLap,
     const std::vector<float> &aZ,
     unsigned int ny,
@@ -43,7 +43,7 @@ void LaplacianGrid(
   }
 }
 
-void LaplacianSmoothGrid(
+inline void LaplacianSmoothGrid(
     std::vector<float> &aZLap,
     double alpha,
     const std::vector<float> &aZ,
diff --git a/include/delfem2/grid3hash.h b/include/delfem2/grid3hash.h
index 608b9fc..ac3fd87 100644
--- a/include/delfem2/grid3hash.h
+++ b/include/delfem2/grid3hash.h
@@ -39,7 +39,7 @@ struct hash<delfem2::GridCoordinate3> {
 }
 
 namespace delfem2 {
-double WGrid1Cubic(double x) {
+inline double WGrid1Cubic(double x) {
   const double x_abs = std::abs(x);
   if (x_abs < 1)
     return std::pow(x_abs, 3) / 2.0 - std::pow(x_abs, 2) + 2.0 / 3.0;
@@ -50,7 +50,7 @@ double WGrid1Cubic(double x) {
     return 0.0;
 };
 
-double dWGrid1Cubic(double x) {
+inline double dWGrid1Cubic(double x) {
   const double x_abs = std::abs(x);
   if (x_abs < 1)
     return x * x_abs * 3.0 / 2.0 - 2.0 * x;
@@ -60,7 +60,7 @@ double dWGrid1Cubic(double x) {
     return 0.0;
 }
 
-double WGrid3Cubic(
+inline double WGrid3Cubic(
     double h_inverse,
     double x_offset,
     double y_offset,
@@ -71,7 +71,7 @@ double WGrid3Cubic(
          * WGrid1Cubic(h_inverse * z_offset);
 };
 
-double dWGrid3Cubic(
+inline double dWGrid3Cubic(
     double h_inverse,
     double d_offset,
     double offset1,
diff --git a/include/delfem2/gridcube.cpp b/include/delfem2/gridcube.cpp
index 044379f..43120b6 100644
--- a/include/delfem2/gridcube.cpp
+++ b/include/delfem2/gridcube.cpp
@@ -13,7 +13,7 @@
 #include "delfem2/geo_plane.h"
 #include "delfem2/geo_line.h"
 
-void delfem2::Pick_CubeGrid(
+DFM2_INLINE void delfem2::Pick_CubeGrid(
     unsigned int& icube_pic,
     int& iface_pic,
     const double src_pic_[3],
@@ -83,7 +83,7 @@ void delfem2::Pick_CubeGrid(
   }
 }
 
-void delfem2::Adj_CubeGrid(
+DFM2_INLINE void delfem2::Adj_CubeGrid(
     int& ivx, int& ivy, int& ivz,
     unsigned int icube,
     int iface,
@@ -100,7 +100,7 @@ void delfem2::Adj_CubeGrid(
   if( iface == 5 ){ ivz += 1; }
 }
 
-void delfem2::Add_CubeGrid
+DFM2_INLINE void delfem2::Add_CubeGrid
  (std::vector<CCubeGrid>& aCube,
   int ivx1, int ivy1, int ivz1)
 {
@@ -121,7 +121,7 @@ void delfem2::Add_CubeGrid
   }
 }
 
-void delfem2::Del_CubeGrid
+DFM2_INLINE void delfem2::Del_CubeGrid
  (std::vector<CCubeGrid>& aCube,
   int i1, int j1, int k1)
 {
@@ -139,7 +139,7 @@ void delfem2::Del_CubeGrid
 }
 
 
-void delfem2::AABB_CubeGrid
+DFM2_INLINE void delfem2::AABB_CubeGrid
  (int aabb[6],
   const std::vector<CCubeGrid>& aCube)
 {
diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 9da9dd4..809b0c5 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -36,14 +36,14 @@ const delfem2::CVec3d normalHexFace[6] = {
 }
 }
 
-bool delfem2::IsInclude_AABB(const int aabb[8], int igvx, int igvy, int igvz) {
+DFM2_INLINE bool delfem2::IsInclude_AABB(const int aabb[8], int igvx, int igvy, int igvz) {
   if (igvx < aabb[0] || igvx >= aabb[1]) { return false; }
   if (igvy < aabb[2] || igvy >= aabb[3]) { return false; }
   if (igvz < aabb[4] || igvz >= aabb[5]) { return false; }
   return true;
 }
 
-void delfem2::Add_AABB(int aabb[8], int ivx, int ivy, int ivz) {
+DFM2_INLINE void delfem2::Add_AABB(int aabb[8], int ivx, int ivy, int ivz) {
   const int ipx0 = ivx + 0;
   const int ipx1 = ivx + 1;
   const int ipy0 = ivy + 0;
@@ -67,7 +67,7 @@ void delfem2::Add_AABB(int aabb[8], int ivx, int ivy, int ivz) {
   }
 }
 
-void delfem2::MeshQuad3D_VoxelGrid(
+DFM2_INLINE void delfem2::MeshQuad3D_VoxelGrid(
     std::vector<double> &aXYZ,
     std::vector<unsigned int> &aQuad,
     unsigned int ndivx,
@@ -133,7 +133,7 @@ void delfem2::MeshQuad3D_VoxelGrid(
   }
 }
 
-void delfem2::MeshHex3D_VoxelGrid(
+DFM2_INLINE void delfem2::MeshHex3D_VoxelGrid(
     std::vector<double> &aXYZ,
     std::vector<int> &aHex,
     unsigned int ndivx,
@@ -191,7 +191,7 @@ void delfem2::MeshHex3D_VoxelGrid(
   }
 }
 
-void delfem2::MeshTet3D_VoxelGrid(
+DFM2_INLINE void delfem2::MeshTet3D_VoxelGrid(
     std::vector<double> &aXYZ,
     std::vector<int> &aTet,
     unsigned int ndivx,
@@ -270,7 +270,7 @@ void delfem2::MeshTet3D_VoxelGrid(
   }
 }
 
-int delfem2::Adj_Grid (
+DFM2_INLINE int delfem2::Adj_Grid (
     int igridvox, int iface,
     int ndivx, int ndivy, int ndivz) {
   int ivx0 = igridvox / (ndivy * ndivz);
@@ -293,7 +293,7 @@ int delfem2::Adj_Grid (
 // ---------------------------------------------------------------------
 
 
-void delfem2::Grid3Voxel_Dilation(
+DFM2_INLINE void delfem2::Grid3Voxel_Dilation(
     delfem2::CGrid3<int> &grid) {
   const int nx = (int) grid.ndivx;
   const int ny = (int) grid.ndivy;
@@ -325,7 +325,7 @@ void delfem2::Grid3Voxel_Dilation(
   }
 }
 
-void delfem2::Grid3Voxel_Erosion(
+DFM2_INLINE void delfem2::Grid3Voxel_Erosion(
     delfem2::CGrid3<int> &grid) {
   const int nx = (int) grid.ndivx;
   const int ny = (int) grid.ndivy;
@@ -358,7 +358,7 @@ void delfem2::Grid3Voxel_Erosion(
 }
 
 // dijkstra method
-void delfem2::VoxelGeodesic
+DFM2_INLINE void delfem2::VoxelGeodesic
     (std::vector<double> &aDist,
      const std::vector<std::pair<unsigned int, double> > &aIdvoxDist,
      const double el,
@@ -416,12 +416,12 @@ void delfem2::VoxelGeodesic
 namespace delfem2 {
 namespace gridvoxel {
 
-int signum(double x) {
+DFM2_INLINE int signum(double x) {
   return x > 0.0 ? 1 : x < 0.0 ? -1 : 0;
 }
 
 // Find the smallest positive t such that s+t*ds is an integer.
-double intbound(double s, double ds) {
+DFM2_INLINE double intbound(double s, double ds) {
   if (ds < 0) {
     return intbound(-s, -ds);
   } else {
@@ -437,7 +437,7 @@ double intbound(double s, double ds) {
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
  * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
-void delfem2::Intersection_VoxelGrid_LinSeg(
+DFM2_INLINE void delfem2::Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
     const CGrid3<int> &grid,
     const CVec3d &ps,
diff --git a/include/delfem2/img_interpolation.cpp b/include/delfem2/img_interpolation.cpp
index 6b9f5dc..3cdcdee 100644
--- a/include/delfem2/img_interpolation.cpp
+++ b/include/delfem2/img_interpolation.cpp
@@ -10,7 +10,7 @@
 
 #include "delfem2/img_interpolation.h"
 
-void delfem2::ImageInterpolation_Bilinear(
+DFM2_INLINE void delfem2::ImageInterpolation_Bilinear(
     double color[3],
     int width,
     int height,
diff --git a/include/delfem2/isrf_adf.cpp b/include/delfem2/isrf_adf.cpp
index b3886cf..37a3792 100644
--- a/include/delfem2/isrf_adf.cpp
+++ b/include/delfem2/isrf_adf.cpp
@@ -344,7 +344,7 @@ DFM2_INLINE void VertexInterp
 
 // ==========================
 
-void delfem2::AdaptiveDistanceField3::SetUp(
+DFM2_INLINE void delfem2::AdaptiveDistanceField3::SetUp(
     const Input_AdaptiveDistanceField3 &ct,
     double bb[6]) {
   aNode.reserve(1024 * 64);
@@ -377,7 +377,7 @@ void delfem2::AdaptiveDistanceField3::SetUp(
 }
 
 // return penetration depth (inside is positive)
-double delfem2::AdaptiveDistanceField3::Projection(
+DFM2_INLINE double delfem2::AdaptiveDistanceField3::Projection(
     double px, double py, double pz,
     double n[3]) const // normal outward
 {
@@ -393,14 +393,14 @@ double delfem2::AdaptiveDistanceField3::Projection(
   return no.FindDistNormal(px, py, pz, n, aNode);
 }
 
-void delfem2::AdaptiveDistanceField3::BuildIsoSurface_MarchingCube
+DFM2_INLINE void delfem2::AdaptiveDistanceField3::BuildIsoSurface_MarchingCube
  (  std::vector<double> &tri_xyz) {
     tri_xyz.clear();
   tri_xyz.reserve(1024 * 32);
   aNode[0].GenerateIsoSurface(tri_xyz, aNode);
 }
 
-delfem2::AdaptiveDistanceField3::CNode::CNode() {
+DFM2_INLINE delfem2::AdaptiveDistanceField3::CNode::CNode() {
   cent_[0] = 0;
   cent_[1] = 0;
   cent_[2] = 0;
@@ -423,7 +423,7 @@ delfem2::AdaptiveDistanceField3::CNode::CNode() {
   dists_[7] = 0;
 }
 
-void delfem2::AdaptiveDistanceField3::CNode::SetCornerDist(
+DFM2_INLINE void delfem2::AdaptiveDistanceField3::CNode::SetCornerDist(
     const Input_AdaptiveDistanceField3 &ct) {
   dists_[0] = ct.sdf(cent_[0] - hw_, cent_[1] - hw_, cent_[2] - hw_);
   dists_[1] = ct.sdf(cent_[0] + hw_, cent_[1] - hw_, cent_[2] - hw_);
@@ -435,7 +435,7 @@ void delfem2::AdaptiveDistanceField3::CNode::SetCornerDist(
   dists_[7] = ct.sdf(cent_[0] - hw_, cent_[1] + hw_, cent_[2] + hw_);
 }
 
-void delfem2::AdaptiveDistanceField3::CNode::MakeChildTree
+DFM2_INLINE void delfem2::AdaptiveDistanceField3::CNode::MakeChildTree
     (const Input_AdaptiveDistanceField3 &ct,
      std::vector<CNode> &aNo,
      double min_hw, double max_hw) {
@@ -691,7 +691,7 @@ void delfem2::AdaptiveDistanceField3::CNode::MakeChildTree
   return;
 }
 
-double delfem2::AdaptiveDistanceField3::CNode::FindDistNormal
+DFM2_INLINE double delfem2::AdaptiveDistanceField3::CNode::FindDistNormal
     (double px, double py, double pz,
      double n[3],
      const std::vector<CNode> &aNo) const // normal outward
@@ -779,7 +779,7 @@ double delfem2::AdaptiveDistanceField3::CNode::FindDistNormal
   }
 }
 
-void delfem2::AdaptiveDistanceField3::CNode::GenerateIsoSurface
+DFM2_INLINE void delfem2::AdaptiveDistanceField3::CNode::GenerateIsoSurface
     (std::vector<double> &aTri,
      const std::vector<CNode> &aNo) const {
   if (this->ichilds_[0] != -1) {    // Evaluate Child Node
diff --git a/include/delfem2/kinetic_damping.h b/include/delfem2/kinetic_damping.h
index 1c30b99..130fa6a 100644
--- a/include/delfem2/kinetic_damping.h
+++ b/include/delfem2/kinetic_damping.h
@@ -9,7 +9,7 @@
 
 namespace delfem2 {
 
-double EnergyKinetic(
+inline double EnergyKinetic(
     const double *aUVW,
     size_t np) {
   double E = 0.0;
diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..6125b66 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -44,7 +44,7 @@ DFM2_INLINE void Print(
 }
 
 
-bool LinPro_CheckTable(
+DFM2_INLINE bool LinPro_CheckTable(
     std::vector<double>& B,
     std::vector<unsigned int>& map_col2row,
     unsigned int ncol,
@@ -89,7 +89,7 @@ bool LinPro_CheckTable(
 // 0: converged
 // 1: input value wrong
 // 2: no bound
-int LinPro_SolveTable(
+DFM2_INLINE int LinPro_SolveTable(
     int& nitr,
     std::vector<double>& B,
     std::vector<unsigned int>& map_col2row,
@@ -193,7 +193,7 @@ int LinPro_SolveTable(
 // ---------------------------------------------
 //
 
-std::vector<double> delfem2::CLinPro::GetValid() const
+DFM2_INLINE std::vector<double> delfem2::CLinPro::GetValid() const
 {
   std::vector<double> res(nvar,0.0);
   const unsigned int ncol = neq+1;
@@ -212,13 +212,13 @@ std::vector<double> delfem2::CLinPro::GetValid() const
   return res;
 }
 
-void delfem2::CLinPro::Print() const{
+DFM2_INLINE void delfem2::CLinPro::Print() const{
   const unsigned int ncol = neq+1;
   const unsigned int nrow = 1+1+nvar+nslk;
   ::Print(A, ncol, nrow, map_col2row);
 }
 
-int delfem2::CLinPro::Solve
+DFM2_INLINE int delfem2::CLinPro::Solve
 (std::vector<double>& solution,
  double& opt_val,
  int& nitr,
@@ -258,7 +258,7 @@ int delfem2::CLinPro::Solve
 }
 
 
-void delfem2::CLinPro::AddEqn(
+DFM2_INLINE void delfem2::CLinPro::AddEqn(
     const std::vector<double>& aW,
     double rhs,
     EQ_TYPE type)
@@ -274,7 +274,7 @@ void delfem2::CLinPro::AddEqn(
 // 0 converged
 // 2 nobound
 // 3 no valid solution
-int delfem2::CLinPro::Precomp(int& nitr)
+DFM2_INLINE int delfem2::CLinPro::Precomp(int& nitr)
 {
   neq = static_cast<unsigned int>(aEq.size());
   nvar = 0;
diff --git a/include/delfem2/matn.h b/include/delfem2/matn.h
index 2ccd956..22a26a4 100644
--- a/include/delfem2/matn.h
+++ b/include/delfem2/matn.h
@@ -45,7 +45,7 @@ bool Inverse_Matrix(
 }
 
 template<>
-bool Inverse_Matrix<double, 3>(double *a) {
+inline bool Inverse_Matrix<double, 3>(double *a) {
   const double det =
       + a[0] * a[4] * a[8]
       + a[3] * a[7] * a[2]
@@ -73,7 +73,7 @@ bool Inverse_Matrix<double, 3>(double *a) {
  * @details partial function template specification is not allowed. so I define the case for "float"
  */
 template<>
-bool Inverse_Matrix<float, 3>(float *a) {
+inline bool Inverse_Matrix<float, 3>(float *a) {
   const float det =
       +a[0] * a[4] * a[8] + a[3] * a[7] * a[2] + a[6] * a[1] * a[5]
           - a[0] * a[7] * a[5] - a[6] * a[4] * a[2] - a[3] * a[1] * a[8];
@@ -92,7 +92,7 @@ bool Inverse_Matrix<float, 3>(float *a) {
 }
 
 template<>
-bool Inverse_Matrix<double, 2>(double *B) {
+inline bool Inverse_Matrix<double, 2>(double *B) {
   const double det = B[0] * B[3] - B[1] * B[2];
   if (fabs(det) < 1.0e-10) return false;
   const double invdet = 1.0 / det;
@@ -105,7 +105,7 @@ bool Inverse_Matrix<double, 2>(double *B) {
 }
 
 template<>
-bool Inverse_Matrix<double, 1>(double *B) {
+inline bool Inverse_Matrix<double, 1>(double *B) {
   B[0] = 1.0 / B[0];
   return true;
 }
diff --git a/include/delfem2/metashape_camera.h b/include/delfem2/metashape_camera.h
index 8e250cd..67d4755 100644
--- a/include/delfem2/metashape_camera.h
+++ b/include/delfem2/metashape_camera.h
@@ -42,7 +42,7 @@ class MetashapeCamConfig {
   delfem2::CMat3f region_R;
 };
 
-std::pair<delfem2::CMat4f, delfem2::CMat4f>
+inline std::pair<delfem2::CMat4f, delfem2::CMat4f>
 CameraTransformationMVP(
     const MetashapeCamConfig &cam_config,
     unsigned int idx_camera) {
@@ -67,7 +67,7 @@ CameraTransformationMVP(
 //  return {cam.transform.Inverse(), img2scr * glb2img};
 }
 
-unsigned int SnapCamera(
+inline unsigned int SnapCamera(
     const delfem2::CMat4f &model_view_matrix,
     const MetashapeCamConfig &cam_config) {
   delfem2::CMat4f mv0 = model_view_matrix; // GetModelViewMatrix();
diff --git a/include/delfem2/msh_geodesic_polyhedron.cpp b/include/delfem2/msh_geodesic_polyhedron.cpp
index 5571a8a..389046b 100644
--- a/include/delfem2/msh_geodesic_polyhedron.cpp
+++ b/include/delfem2/msh_geodesic_polyhedron.cpp
@@ -16,7 +16,7 @@
 
 // --------------------------------------------------
 
-void MeshTri3D_GeodesicPolyhedron(
+DFM2_INLINE void MeshTri3D_GeodesicPolyhedron(
     std::vector<double> &aXYZ1,
     std::vector<unsigned int> &aTri1) {
   namespace dfm2 = delfem2;
diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..aca33b9 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -617,7 +617,7 @@ template bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
     const std::filesystem::path &file_path);
 #endif
 
-void delfem2::Read_WavefrontMaterial(
+DFM2_INLINE void delfem2::Read_WavefrontMaterial(
     const std::filesystem::path &file_path,
     std::vector<MaterialWavefrontObj> &materials) {
   std::ifstream fin;
diff --git a/include/delfem2/msh_unindexed.h b/include/delfem2/msh_unindexed.h
index c53a72d..4b0a163 100644
--- a/include/delfem2/msh_unindexed.h
+++ b/include/delfem2/msh_unindexed.h
@@ -12,7 +12,7 @@
 
 namespace delfem2 {
 
-void UnidexedVertexDataTriMesh(
+inline void UnidexedVertexDataTriMesh(
   std::vector<double> &tri_xyz,
   const std::vector<double> &vtx_xyz,
   const std::vector<unsigned int> &tri_vtx) {
@@ -28,7 +28,7 @@ void UnidexedVertexDataTriMesh(
   }
 }
 
-void UnindexedNormalTriMesh3(
+inline void UnindexedNormalTriMesh3(
   std::vector<double> &tri_nrm,
   const std::vector<double> &vtx_xyz,
   const std::vector<unsigned int> &tri_vtx) {
@@ -51,7 +51,7 @@ void UnindexedNormalTriMesh3(
   }
 }
 
-void UnindexedColorTriMesh3(
+inline void UnindexedColorTriMesh3(
   std::vector<double> &tri_rgb,
   const double flg_rgb[][3],
   const std::vector<int> &tri_flg,
@@ -68,7 +68,7 @@ void UnindexedColorTriMesh3(
   }
 }
 
-void UnindexedEdgeMesh3_UnindexedTrimesh3
+inline void UnindexedEdgeMesh3_UnindexedTrimesh3
  (std::vector<double> &edge_xyz,
   const std::vector<double> &tri_xyz) {
   unsigned int ntri = tri_xyz.size()/9;
diff --git a/include/delfem2/noise.h b/include/delfem2/noise.h
index 4092e24..e436abd 100644
--- a/include/delfem2/noise.h
+++ b/include/delfem2/noise.h
@@ -15,7 +15,7 @@
 
 namespace delfem2 {
 
-void Shuffle(std::vector<int>& X)
+inline void Shuffle(std::vector<int>& X)
 {
   const int N = (int)X.size();
   for(int i=0;i<N;i++){
@@ -26,7 +26,7 @@ void Shuffle(std::vector<int>& X)
   }
 }
 
-double grad2
+inline double grad2
 (double x, double y,
  int igrad,
  const std::vector<double>& aGrad)
@@ -36,7 +36,7 @@ double grad2
   return aGrad[ig0*2+0]*x + aGrad[ig0*2+1]*y;
 }
 
-double grad3
+inline double grad3
 (double x, double y, double z,
  int igrad,
  const std::vector<double>& aGrad)
@@ -52,7 +52,7 @@ REAL fade(REAL t) {
   return t*t*t*(t*(t*6 - 15) + 10);
 }
 
-double noise_perlin_2d
+inline double noise_perlin_2d
 (double x, double y, int np,
  const std::vector<double>& aGrad,
  const std::vector<int>& aP)
@@ -79,7 +79,7 @@ double noise_perlin_2d
   return (1-fuy)*vxa + fuy*vxb;
 }
 
-double noise_perlin_3d(
+inline double noise_perlin_3d(
 	double x, 
 	double y, 
 	double z, 
@@ -126,7 +126,7 @@ double noise_perlin_3d(
   return vxyz;
 }
 
-double noise_perlin_2d_oct
+inline double noise_perlin_2d_oct
 (double x, double y,
  int nrep,
  int noct, double persistence,
@@ -147,7 +147,7 @@ double noise_perlin_2d_oct
   return val;
 }
 
-double noise_perlin_3d_oct(
+inline double noise_perlin_3d_oct(
 	double x, 
 	double y, 
 	double z,
@@ -171,7 +171,7 @@ double noise_perlin_3d_oct(
   return val;
 }
 
-void ComputePerlin(
+inline void ComputePerlin(
     std::vector<double> &aV,
     unsigned int nW,
     unsigned int nH,
diff --git a/include/delfem2/opengl/old/color.cpp b/include/delfem2/opengl/old/color.cpp
index 1f28760..1dfd339 100644
--- a/include/delfem2/opengl/old/color.cpp
+++ b/include/delfem2/opengl/old/color.cpp
@@ -55,10 +55,10 @@ template<typename T>
 void myGlNormalPtr(const T *p);
 
 template<>
-void myGlNormalPtr(const double *p) { ::glNormal3dv(p); }
+DFM2_INLINE void myGlNormalPtr(const double *p) { ::glNormal3dv(p); }
 
 template<>
-void myGlNormalPtr(const float *p) { ::glNormal3fv(p); }
+DFM2_INLINE void myGlNormalPtr(const float *p) { ::glNormal3fv(p); }
 
 template<typename REAL>
 DFM2_INLINE void myGlVertex3(
diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..4f53754 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -192,7 +192,7 @@ DFM2_INLINE void RemoveExpressionBracket(std::string &exp) {
  * itype : 2 --> Unary Operator
  * itype : 3 --> Binary Operator
  */
-int GetLowestPriorityOperator(
+DFM2_INLINE int GetLowestPriorityOperator(
   unsigned int &ibegin,
   unsigned int &iend,
   int &itype,
@@ -363,7 +363,7 @@ struct SExpCompo {
   int iOpe;
 };
 
-bool MakeRPN(
+DFM2_INLINE bool MakeRPN(
   unsigned int icur_old,
   std::vector<SExpCompo> &exp_node_vec) {
   assert(icur_old < exp_node_vec.size());
@@ -429,7 +429,7 @@ bool MakeRPN(
   return true;
 }
 
-bool MakeCmdAry(
+DFM2_INLINE bool MakeCmdAry(
   std::vector<CCmd *> &cmd_vec,
   std::vector<CKey> &m_aKey,
   const std::vector<SExpCompo> &exp_node_vec) {
@@ -487,13 +487,13 @@ bool MakeCmdAry(
 // ---------------------------------------------------------
 // below: exposed
 
-delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
+DFM2_INLINE delfem2::CMathExpressionEvaluator::~CMathExpressionEvaluator() {
   for (auto &icmd: m_apCmd) {
     delete icmd;
   }
 }
 
-void delfem2::CMathExpressionEvaluator::SetKey(
+DFM2_INLINE void delfem2::CMathExpressionEvaluator::SetKey(
   const std::string &key_name, double key_val) {
   for (auto &ikey: m_aKey) {
     if (ikey.m_Name == key_name) {
@@ -509,7 +509,7 @@ void delfem2::CMathExpressionEvaluator::SetKey(
   m_aKey.emplace_back(key_name, key_val);
 }
 
-bool delfem2::CMathExpressionEvaluator::SetExp(
+DFM2_INLINE bool delfem2::CMathExpressionEvaluator::SetExp(
   const std::string &exp) {
   namespace lcl = delfem2::parse_math_expression;
   m_is_valid = false;
@@ -583,7 +583,7 @@ bool delfem2::CMathExpressionEvaluator::SetExp(
   return true;
 }
 
-double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
+DFM2_INLINE double delfem2::CMathExpressionEvaluator::Eval() const { // evaluating the math expression
   std::vector<double> stack;
   stack.reserve(128);
   for (auto icmd: m_apCmd) {
diff --git a/include/delfem2/pbd_bending_for_dtri.cpp b/include/delfem2/pbd_bending_for_dtri.cpp
index 7af07b8..60a89ea 100644
--- a/include/delfem2/pbd_bending_for_dtri.cpp
+++ b/include/delfem2/pbd_bending_for_dtri.cpp
@@ -33,7 +33,7 @@ static void FetchData(
 
 }
 
-void delfem2::PBD_Bend(
+DFM2_INLINE void delfem2::PBD_Bend(
     double *aXYZt,
     [[maybe_unused]] size_t nXYZ,
     const std::vector<delfem2::CDynTri> &aETri,
diff --git a/include/delfem2/polyline_elastic_beam2.h b/include/delfem2/polyline_elastic_beam2.h
index 1a1e1f5..abcb68a 100644
--- a/include/delfem2/polyline_elastic_beam2.h
+++ b/include/delfem2/polyline_elastic_beam2.h
@@ -74,7 +74,7 @@ class PolylineElasticEdit2 {
 
 }
 
-delfem2::PolylineElasticEdit2::PolylineElasticEdit2() {
+inline delfem2::PolylineElasticEdit2::PolylineElasticEdit2() {
   this->EI = 30.0;
   this->ARho = 1;
   this->AE = 100000.0;
@@ -146,7 +146,7 @@ void delfem2::PolylineElasticEdit2::Drag(
    */
 }
 
-void delfem2::PolylineElasticEdit2::ClearMemory() {
+inline void delfem2::PolylineElasticEdit2::ClearMemory() {
   ini_x.clear();
   ut.clear();
   bc_flag.clear();
@@ -155,11 +155,11 @@ void delfem2::PolylineElasticEdit2::ClearMemory() {
   m_mat.Clear();
 }
 
-delfem2::PolylineElasticEdit2::~PolylineElasticEdit2() {
+inline delfem2::PolylineElasticEdit2::~PolylineElasticEdit2() {
   this->ClearMemory();
 }
 
-void delfem2::PolylineElasticEdit2::ProjectPoint(
+inline void delfem2::PolylineElasticEdit2::ProjectPoint(
     double x_in, double y_in, int &idiv_min,
     double &alpha, double &ndist, double &norm_x, double &norm_y) {
   const size_t nno = ut.size() / 3;
@@ -190,7 +190,7 @@ void delfem2::PolylineElasticEdit2::ProjectPoint(
   }
 }
 
-void delfem2::PolylineElasticEdit2::SolveLinearStatic() {
+inline void delfem2::PolylineElasticEdit2::SolveLinearStatic() {
   const size_t nno = ut.size() / 3;
   for (unsigned int i = 0; i < nno * 3; i++) { Res[i] = 0; }
   m_mat.setZero();
diff --git a/include/delfem2/rgd_v2m3.cpp b/include/delfem2/rgd_v2m3.cpp
index c3d6f06..55a572a 100644
--- a/include/delfem2/rgd_v2m3.cpp
+++ b/include/delfem2/rgd_v2m3.cpp
@@ -9,7 +9,7 @@
 
 namespace delfem2::rgd_v2m3{
 
-CMat3d Mat3_Affine(
+DFM2_INLINE CMat3d Mat3_Affine(
     const CVec2d& posl,
     const double theta,
     const CVec2d& posg)
@@ -29,7 +29,7 @@ CMat3d Mat3_Affine(
  * @param[in] q input point
  * @return true: collision, false: no-collision
  */
-bool Nearest_Polygon2(
+DFM2_INLINE bool Nearest_Polygon2(
     unsigned int& ie_near,
     double& re_near,
     CVec2d& n_near,
@@ -69,7 +69,7 @@ bool Nearest_Polygon2(
  * @param[in] nj contact normal on B in global coordinate
  * @return force*dt*dt to resolve contact
  */
-double ResolveContact(
+DFM2_INLINE double ResolveContact(
     CRigidState2& rbA,
     CRigidState2& rbB,
     double penetration,
@@ -110,7 +110,7 @@ double ResolveContact(
  * @param[in] vslip // slipping velocity
  * @param impulse force*dt: perpendiculer force times time step.
  */
-void AddFriction(
+DFM2_INLINE void AddFriction(
     CRigidState2& rbA,
     CRigidState2& rbB,
     const CVec2d& pA,
@@ -151,7 +151,7 @@ void AddFriction(
 
 }
 
-void delfem2::Steptime_Rgd2(
+DFM2_INLINE void delfem2::Steptime_Rgd2(
     std::vector<delfem2::CRigidState2>& aRS,
     double dt,
     const delfem2::CVec2d& gravity)
diff --git a/include/delfem2/rigopt.h b/include/delfem2/rigopt.h
index 83e900d..2ab50ab 100644
--- a/include/delfem2/rigopt.h
+++ b/include/delfem2/rigopt.h
@@ -92,7 +92,7 @@ Rig_Sensitivity_Skeleton(
   }
 }
 
-void Sensitivity_RigSkinPoint(
+inline void Sensitivity_RigSkinPoint(
     std::vector<double>& dP,
     unsigned int ip,
     const double* p0,
diff --git a/include/delfem2/sampler_lloyd2.h b/include/delfem2/sampler_lloyd2.h
index 0113c98..d521d1c 100644
--- a/include/delfem2/sampler_lloyd2.h
+++ b/include/delfem2/sampler_lloyd2.h
@@ -22,7 +22,7 @@ namespace delfem2 {
  * @param min_aabb
  * @param max_aabb
  */
-void Step_Lloyd2(
+inline void Step_Lloyd2(
     std::vector<double> &aXY,
     //
     const unsigned int ndiv,
diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 11f1188..2becf70 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -114,7 +114,7 @@ DFM2_INLINE bool TraverseBoundaryLoop(
 
 // ----------------------------------------------
 
-void delfem2::CSegInfo::Initialize(
+DFM2_INLINE void delfem2::CSegInfo::Initialize(
     int jtri0,
     const unsigned int* aTri,
     [[maybe_unused]] size_t nTri,
@@ -157,7 +157,7 @@ void delfem2::CSegInfo::Initialize(
   }
 }
 
-void delfem2::CSegInfo::Pos3D(
+DFM2_INLINE void delfem2::CSegInfo::Pos3D(
     double pA[3],
     double pB[3],
     //
@@ -179,7 +179,7 @@ void delfem2::CSegInfo::Pos3D(
   pB[2] = (1.0-this->r0B)*aP[(this->iedB+1)%3][2] + (this->r0B)*aP[(this->iedB+2)%3][2];
 }
 
-void delfem2::CSegInfo::Pos2D(
+DFM2_INLINE void delfem2::CSegInfo::Pos2D(
     double pA[2],
     double pB[2],
     //
@@ -199,7 +199,7 @@ void delfem2::CSegInfo::Pos2D(
   pB[1] = (1.0-this->r0B)*aP[(this->iedB+1)%3][1] + (this->r0B)*aP[(this->iedB+2)%3][1];
 }
 
-void delfem2::AddContour(
+DFM2_INLINE void delfem2::AddContour(
     std::vector<CSegInfo>& aSeg,
     double thres,
     const unsigned int* vec_tri,
@@ -228,7 +228,7 @@ void delfem2::AddContour(
 
 
 
-void delfem2::Slice_MeshTri3D_Heights
+DFM2_INLINE void delfem2::Slice_MeshTri3D_Heights
 (std::vector<CSliceTriMesh>& aCS,
  ////
  const std::vector<double>& aLevel,
diff --git a/include/delfem2/srch_bruteforce.cpp b/include/delfem2/srch_bruteforce.cpp
index d252b6d..2fbaa47 100644
--- a/include/delfem2/srch_bruteforce.cpp
+++ b/include/delfem2/srch_bruteforce.cpp
@@ -576,7 +576,7 @@ template double delfem2::DistanceToTri(
 
 // ---------------------------------
 
-std::vector<unsigned int> delfem2::IndexesOfConnectedTriangleInSphere(
+DFM2_INLINE std::vector<unsigned int> delfem2::IndexesOfConnectedTriangleInSphere(
   const std::array<double, 3> pos,
   double rad,
   unsigned int itri0,
@@ -614,7 +614,7 @@ std::vector<unsigned int> delfem2::IndexesOfConnectedTriangleInSphere(
   return res;
 }
 
-bool delfem2::IsTherePointOnMeshInsideSphere(
+DFM2_INLINE bool delfem2::IsTherePointOnMeshInsideSphere(
   const std::tuple<unsigned int, double, double> &smpli,
   double rad,
   const std::vector<std::tuple<unsigned int, double, double> > &samples,
-- 
2.43.0


From f93e14caaf9c6a15cf17fa3006807dd1fdded1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 08/57] fix: tensordata.h has no include guard (redefinition
 when included twice)

---
 include/delfem2/tensordata.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/tensordata.h b/include/delfem2/tensordata.h
index c397c3b..3c0bc94 100644
--- a/include/delfem2/tensordata.h
+++ b/include/delfem2/tensordata.h
@@ -1,3 +1,6 @@
+#ifndef DFM2_TENSORDATA_H
+#define DFM2_TENSORDATA_H
+
 #include <vector>
 
 namespace delfem2 {
@@ -129,4 +132,6 @@ public:
 };
 
 
-}
\ No newline at end of file
+}
+
+#endif  // DFM2_TENSORDATA_H
-- 
2.43.0


From 76bb958b6cf3d9c410bd83fb72de6738983cb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:44 +0000
Subject: [PATCH 09/57] fix: rigopt.h defines functions that are not inline in
 static-library mode

---
 include/delfem2/rigopt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/rigopt.h b/include/delfem2/rigopt.h
index 2ab50ab..4e2971d 100644
--- a/include/delfem2/rigopt.h
+++ b/include/delfem2/rigopt.h
@@ -27,7 +27,7 @@ namespace delfem2 {
  * @param[in] is_rot is bone change is rotation or translation
  * @param[in] aBone1 current sleleton
  */
-DFM2_INLINE void Rig_SensitivityBoneTransform(
+inline void Rig_SensitivityBoneTransform(
     std::vector<double>& L, // [ nsns, nBone*12 ]
     unsigned int ib_s,
     unsigned int idim_s,
@@ -70,7 +70,7 @@ DFM2_INLINE void Rig_SensitivityBoneTransform(
 
 }
 
-DFM2_INLINE void
+inline void
 Rig_Sensitivity_Skeleton(
     std::vector<double>& L,
     const std::vector<CRigBone>& aBone)
@@ -130,7 +130,7 @@ public:
 public:
 };
 
-DFM2_INLINE void Rig_WdW_Target(
+inline void Rig_WdW_Target(
     std::vector<double>& aW,
     std::vector<double>& adW,
     const std::vector<CRigBone>& aBone,
@@ -164,7 +164,7 @@ DFM2_INLINE void Rig_WdW_Target(
 
 
 
-DFM2_INLINE void
+inline void
 Solve_MinRigging(
     std::vector<CRigBone>& aBone,
     const std::vector<CTarget>& aTarget)
-- 
2.43.0


From 6bc995b2b3c0f12f98675ae1739920e61c71deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 10/57] fix: CheckTet(tets) blocks on terminal input and then
 indexes out of range on an illegal neighbour

---
 include/delfem2/dtet_v3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/dtet_v3.cpp b/include/delfem2/dtet_v3.cpp
index cf6af0b..56f1a29 100644
--- a/include/delfem2/dtet_v3.cpp
+++ b/include/delfem2/dtet_v3.cpp
@@ -1779,7 +1779,7 @@ DFM2_INLINE bool delfem2::CheckTet(const std::vector<CDynTet>& tet)
 				if( tet[itet].s[ifatet] >= tet.size() ){
 					std::cout << "ILLEGAL NEIGHBOR INDEX " << std::endl;
 					std::cout << itet << " " << ifatet << " " << tet[itet].s[ifatet] << std::endl;
-					getchar();
+					return false;
 				}
 //				std::cout << itet << " " << ifatet << "-->" << tet[itet].g[ifatet] << std::endl;
 //				continue;
-- 
2.43.0


From d2b254af9ea87d4f39460e5fbf183b14e48fd6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 11/57] fix: closest ray-mesh intersection compares distances
 truncated to single precision

---
 include/delfem2/dtri3_v3dtri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/dtri3_v3dtri.cpp b/include/delfem2/dtri3_v3dtri.cpp
index 5dae54b..fa5c7c0 100644
--- a/include/delfem2/dtri3_v3dtri.cpp
+++ b/include/delfem2/dtri3_v3dtri.cpp
@@ -188,7 +188,7 @@ DFM2_INLINE bool FindRayTriangleMeshIntersectionClosestToPoint
   double minSquareDistance = 1.0e16;
   for (auto & i : intersectionPoints)
   {
-    float currSquareDistance =
+    double currSquareDistance =
     (i.x - targetPoint.x) * (i.x - targetPoint.x) +
     (i.y - targetPoint.y) * (i.y - targetPoint.y) +
     (i.z - targetPoint.z) * (i.z - targetPoint.z);
-- 
2.43.0


From 52e2822a2f8638d342e2d60d710ddc17859e8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 12/57] fix: DragPolylineElastic_Rod2 truncates the update of
 double-precision polylines to single precision

---
 include/delfem2/polyline_elastic_rod2.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/polyline_elastic_rod2.h b/include/delfem2/polyline_elastic_rod2.h
index 5986ea1..78c849b 100644
--- a/include/delfem2/polyline_elastic_rod2.h
+++ b/include/delfem2/polyline_elastic_rod2.h
@@ -5,6 +5,7 @@
 #ifndef POLYLINE_ELASTIC_EDIT_ROD2_H_
 #define POLYLINE_ELASTIC_EDIT_ROD2_H_
 
+#include <type_traits>
 #include <vector>
 #include <cmath>
 #include <array>
@@ -64,9 +65,10 @@ void DragPolylineElastic_Rod2(
   }
   sparse.Solve();
   // std::cout << W << std::endl;
+  using Scalar = std::decay_t<decltype(vtx_xy[0][0])>;
   for (unsigned int ip = 0; ip < np; ++ip) {
-    vtx_xy[ip][0] += static_cast<float>(sparse.vec_x[ip * 2 + 0]);
-    vtx_xy[ip][1] += static_cast<float>(sparse.vec_x[ip * 2 + 1]);
+    vtx_xy[ip][0] += static_cast<Scalar>(sparse.vec_x[ip * 2 + 0]);
+    vtx_xy[ip][1] += static_cast<Scalar>(sparse.vec_x[ip * 2 + 1]);
   }
   { // fixed boundary condition
     vtx_xy[idx_vtx0][0] = pos_vtx0[0];
-- 
2.43.0


From c7c8271dff0d6d24e415e28e865bc1bda8a27093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 13/57] fix: Nearest_Edge3_Line3 tests parallelism with the
 integer abs (any |determinant| below 1 counts as parallel)

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..3acd118 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -328,7 +328,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (std::abs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
-- 
2.43.0


From a0b805a306f0fde51107947304c3bc17fc77b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 14/57] fix: CMat3::MatMatTrans, SecondInvarint and PolerDecomp
 do not compile when used

---
 include/delfem2/mat3.cpp |  2 +-
 include/delfem2/mat3.h   | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/mat3.cpp b/include/delfem2/mat3.cpp
index 8926237..23d673d 100644
--- a/include/delfem2/mat3.cpp
+++ b/include/delfem2/mat3.cpp
@@ -185,7 +185,7 @@ delfem2::CMat3<T> delfem2::CMat3<T>::MatMatTrans(const CMat3<T> &mat0) const {
   CMat3 m;
   for (unsigned int i = 0; i < 3; i++) {
     for (unsigned int j = 0; j < 3; j++) {
-      m.mat[i * 3 + j] =
+      m.p_[i * 3 + j] =
           p_[0 * 3 + i] * mat0.p_[0 * 3 + j] +
           p_[1 * 3 + i] * mat0.p_[1 * 3 + j] +
           p_[2 * 3 + i] * mat0.p_[2 * 3 + j];
diff --git a/include/delfem2/mat3.h b/include/delfem2/mat3.h
index 3ad583e..94d4761 100644
--- a/include/delfem2/mat3.h
+++ b/include/delfem2/mat3.h
@@ -23,6 +23,7 @@
 
 #include "delfem2/dfm2_inline.h"
 #include "delfem2/geo_meta_funcs.h"
+#include "delfem2/svd3.h"
 
 // -----------------------------
 
@@ -235,8 +236,8 @@ class CMat3 {
   }
   [[nodiscard]] double SecondInvarint() const {
     const CMat3 &m2 = (*this) * (*this);
-    const double tr = this->Trace();
-    return 0.5 * (tr * tr - m2.Trace());
+    const double tr = this->trace();
+    return 0.5 * (tr * tr - m2.trace());
   }
   void Print() const {
     std::cout << p_[0] << " " << p_[1] << " " << p_[2] << std::endl;
@@ -244,8 +245,11 @@ class CMat3 {
     std::cout << p_[6] << " " << p_[7] << " " << p_[8] << std::endl;
   }
   void PolerDecomp(CMat3 &R, int nitr) const {
-    GetRotPolarDecomp(R.p_,
-                      p_, nitr);
+    const double m[9] = {
+        p_[0], p_[1], p_[2], p_[3], p_[4], p_[5], p_[6], p_[7], p_[8]};
+    double r[9];
+    GetRotPolarDecomp(r, m, nitr);
+    for (unsigned int i = 0; i < 9; ++i) { R.p_[i] = static_cast<REAL>(r[i]); }
   }
   // --------------------
   // static functions
-- 
2.43.0


From dbd8f61439a5940f9b0dbb93300459dc1107a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 15/57] fix: CMat4::SetQuaternion calls a function that does
 not exist

---
 include/delfem2/mat4.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/mat4.h b/include/delfem2/mat4.h
index 7186624..b4b6db3 100644
--- a/include/delfem2/mat4.h
+++ b/include/delfem2/mat4.h
@@ -422,8 +422,7 @@ class CMat4 {
                            x, y, z);
   }
   void SetQuaternion(const REAL *q) {
-    Mat4_Quat(mat,
-              q);
+    *this = CMat4<REAL>::Quat(q);
   }
 
   /**
-- 
2.43.0


From 601120d7c5c2ed4c36b8c487f8703300171498a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 16/57] fix: CGizmo_Affine<double>::Pick and Drag do not
 compile (float pointers)

---
 include/delfem2/gizmo_geo3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/gizmo_geo3.h b/include/delfem2/gizmo_geo3.h
index 2d7e3db..d7295a3 100644
--- a/include/delfem2/gizmo_geo3.h
+++ b/include/delfem2/gizmo_geo3.h
@@ -158,7 +158,7 @@ public:
       const CVec3<REAL>& pivot){
     pivot0 = pivot;
   }
-  void Pick(const float src[3], const float dir[3]){
+  void Pick(const REAL src[3], const REAL dir[3]){
     if( this->igizmo_mode == 1 ){
       gizmo_rot.Pick(true, src, dir, 0.1f);
     }
@@ -166,7 +166,7 @@ public:
       gizmo_trnsl.Pick(true, src, dir, 0.1f);
     }
   }
-  void Drag(const float src0[3], const float src1[3], const float dir[3])
+  void Drag(const REAL src0[3], const REAL src1[3], const REAL dir[3])
   {
     if( this->igizmo_mode == 1 ){
       gizmo_rot.Drag(src0,src1,dir);
-- 
2.43.0


From 221ea51d21eab7c5b347b5c7d398f8b5445c03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 17/57] fix: CMatrixSparse copy assignment and
 AddDia_LumpedMass use members that do not exist

---
 include/delfem2/ls_block_sparse.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..3e5255f 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -59,14 +59,14 @@ class CMatrixSparse {
    * @param m
    */
   void operator=(const CMatrixSparse &m) {
-    this->nrowblk = m.nrowblk;
-    this->nrowdim = m.nrowdim;
-    this->ncolblk = m.ncolblk;
-    this->ncoldim = m.ncoldim;
-    col_ind_ = m.colInd;
-    row_ptr_ = m.rowPtr;
-    val_crs_ = m.valCrs;
-    val_dia_ = m.valDia; // copy value
+    this->nrowblk_ = m.nrowblk_;
+    this->nrowdim_ = m.nrowdim_;
+    this->ncolblk_ = m.ncolblk_;
+    this->ncoldim_ = m.ncoldim_;
+    col_ind_ = m.col_ind_;
+    row_ptr_ = m.row_ptr_;
+    val_crs_ = m.val_crs_;
+    val_dia_ = m.val_dia_; // copy value
   }
 
   void SetPattern(
@@ -172,10 +172,10 @@ class CMatrixSparse {
   void AddDia_LumpedMass(
       const T *lm,
       double scale) {
-    assert(this->nblk_row == this->nblk_col);
-    assert(this->len_row == this->nrowdim);
+    assert(this->nrowblk_ == this->ncolblk_);
+    assert(this->nrowdim_ == this->ncoldim_);
     const int blksize = nrowdim_ * ncoldim_;
-    const int nlen = this->nrowdim;
+    const int nlen = this->nrowdim_;
     if (val_dia_.empty()) { return; }
     for (unsigned int iblk = 0; iblk < nrowblk_; ++iblk) {
       for (int ilen = 0; ilen < nlen; ++ilen) {
-- 
2.43.0


From e53d6401395d02a00caf5f3255bd86ce3c74b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 18/57] fix: CPreconditionerILU copy constructor uses members
 that do not exist

---
 include/delfem2/ls_ilu_block_sparse.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..dcc04f4 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -134,14 +134,10 @@ class CRowLevNext {
 
 template<typename T>
 delfem2::CPreconditionerILU<T>::CPreconditionerILU(
-    const CPreconditionerILU<T> &p) {
-//  std::cout << "CPreconditionerILU -- construct copy" << std::endl;
-  this->mat = p.mat; // deep copy
-  assert(nblk == this->mat.nblk_col);
-  this->m_diaInd.resize(nblk);
-  for (int iblk = 0; iblk < nblk; ++iblk) {
-    this->m_diaInd[iblk] = p.m_diaInd[iblk];
-  }
+    const CPreconditionerILU<T> &p)
+    : nblk(p.nblk), ndim(p.ndim),
+      colInd(p.colInd), rowPtr(p.rowPtr), m_diaInd(p.m_diaInd),
+      valCrs(p.valCrs), valDia(p.valDia) {
 }
 
 // -------------------------------------------------------------------
-- 
2.43.0


From 228b4a07b93984f9e39c7e62d03d73847d79e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 19/57] fix: CBV3_AABB<float>::Center does not compile
 (narrowing)

---
 include/delfem2/srch_bv3_aabb.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_bv3_aabb.h b/include/delfem2/srch_bv3_aabb.h
index 5ed4fcd..fd39c93 100755
--- a/include/delfem2/srch_bv3_aabb.h
+++ b/include/delfem2/srch_bv3_aabb.h
@@ -220,9 +220,9 @@ class CBV3_AABB {
   }
   std::vector<REAL> Center() {
     return {
-        (bbmin[0] + bbmax[0]) * 0.5,
-        (bbmin[1] + bbmax[1]) * 0.5,
-        (bbmin[2] + bbmax[2]) * 0.5};
+        (bbmin[0] + bbmax[0]) * static_cast<REAL>(0.5),
+        (bbmin[1] + bbmax[1]) * static_cast<REAL>(0.5),
+        (bbmin[2] + bbmax[2]) * static_cast<REAL>(0.5)};
   }
   std::vector<REAL> Point3D_Vox() {
     std::vector<REAL> aP(3 * 8);
-- 
2.43.0


From c71e6ce08a9823b6704e9c3df28fb8b8293404d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 20/57] fix: Mearge/Merge accept a block outside of the
 sparsity pattern on a fresh merge buffer (adds it to entry 0)

---
 include/delfem2/ls_block_sparse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 3e5255f..aab5879 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -215,7 +215,7 @@ bool Mearge(
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
   assert(blksize == A.nrowdim_ * A.ncoldim_);
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
@@ -318,7 +318,7 @@ bool Merge(
     std::vector<unsigned int> &merge_buffer) {
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
-- 
2.43.0


From 636751b92f5710adab63591c78f045b36ff5af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 21/57] fix: element-matrix merge takes the diagonal block by
 row position only (wrong when row and column node lists differ)

---
 include/delfem2/ls_block_sparse.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index aab5879..eca9f94 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From efa969a39a9fae48f70bfebc07f2205664fdf43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:27 +0000
Subject: [PATCH 22/57] fix: constructors leave scalar members uninitialised
 (deformers, laplacian solvers, tet mesh records, CLinPro, CMeshElem, CCad3D,
 ADF)

---
 include/delfem2/cad3d.h                  |  4 ++--
 include/delfem2/defarap.h                |  6 +++---
 include/delfem2/deflap.h                 |  6 +++---
 include/delfem2/dtet_v3.cpp              |  2 +-
 include/delfem2/dtet_v3.h                | 10 +++++-----
 include/delfem2/isrf_adf.h               |  2 +-
 include/delfem2/lp.h                     |  2 +-
 include/delfem2/msh_uniform_class.h      |  4 ++--
 include/delfem2/polyline_elastic_beam2.h |  2 +-
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/delfem2/cad3d.h b/include/delfem2/cad3d.h
index aea84c6..575cead 100644
--- a/include/delfem2/cad3d.h
+++ b/include/delfem2/cad3d.h
@@ -429,12 +429,12 @@ public:
   // ---------------
   // pick related
   unsigned int ivtx_picked = UINT_MAX;
-  int ielem_vtx_picked;
+  int ielem_vtx_picked = 0;
   
   // edge related pick
   int iedge_picked;
   int ielem_edge_picked; // 0:JustPicked, 1:PlaneEdgePickedd, 2:BezierHandlerA, 3:BezierHandlerB
-  double ratio_edge_picked;
+  double ratio_edge_picked = 0.0;
   std::vector< std::pair<unsigned int,bool > > aIE_picked;
   
   int plane_inorm; // if it is 0,1,2 it shouws plane
diff --git a/include/delfem2/defarap.h b/include/delfem2/defarap.h
index 8ebbd85..38f585c 100644
--- a/include/delfem2/defarap.h
+++ b/include/delfem2/defarap.h
@@ -107,9 +107,9 @@ class CDef_ArapEdge {
   void MakePreconditionerJacobi();
  public:
   std::vector<unsigned int> psup_ind, psup;
-  double weight_bc;
+  double weight_bc = 0.0;
   std::vector<int> aBCFlag;
-  bool is_preconditioner;
+  bool is_preconditioner = false;
   // -------------
   std::vector<double> aMatEdge;
   std::vector<double> aDiaInv; // for jacobi preconditining
@@ -144,7 +144,7 @@ class Deformer_Arap {
   mutable std::vector<double> convergence_history;
   std::vector<unsigned int> psup_ind, psup;
  private:
-  bool is_preconditioner_; // use preconditioner or not
+  bool is_preconditioner_ = false; // use preconditioner or not
   std::vector<double> precomp_; // size: np * 9, precomputed component of sparse
   CMatrixSparse<double> sparse_;
   std::vector<double> residual_, update_;
diff --git a/include/delfem2/deflap.h b/include/delfem2/deflap.h
index edc4861..bbcc117 100644
--- a/include/delfem2/deflap.h
+++ b/include/delfem2/deflap.h
@@ -53,7 +53,7 @@ public:
   void SolvePrecond(double* v) const;
 public:
   CMatrixSparse<double> Mat;
-  bool is_preconditioner;
+  bool is_preconditioner = false;
   double weight_bc = 100.0;
   std::vector<int> aBCFlag;
   std::vector<double> aRes0;
@@ -103,7 +103,7 @@ public:
   double conv_tol = 1.0e-5;
 
   //! swich to activate preconditioer
-  bool is_preconditioner;
+  bool is_preconditioner = false;
 
   //! preconditioiner
   CPreconditionerILU<double> Prec;
@@ -161,7 +161,7 @@ public:
   double conv_tol = 1.0e-5;
 
   //! swich to activate preconditioer
-  bool is_preconditioner;
+  bool is_preconditioner = false;
 
   //! @brief preconditioiner
   std::vector<double> aDiaInv;
diff --git a/include/delfem2/dtet_v3.cpp b/include/delfem2/dtet_v3.cpp
index 56f1a29..3ac8f8c 100644
--- a/include/delfem2/dtet_v3.cpp
+++ b/include/delfem2/dtet_v3.cpp
@@ -99,7 +99,7 @@ public:
 public:
   unsigned int itet_old; // tet index old
   unsigned int itfc_old; // tet face index old
-  unsigned int v[3]; // vertex index
+  unsigned int v[3] = {UINT_MAX, UINT_MAX, UINT_MAX}; // vertex index
   unsigned int inew_sur[3]; // adjacent index of CNew
   unsigned int iold; // index of COld
   unsigned int itet_new; // tet index new
diff --git a/include/delfem2/dtet_v3.h b/include/delfem2/dtet_v3.h
index b98135a..3197f5b 100644
--- a/include/delfem2/dtet_v3.h
+++ b/include/delfem2/dtet_v3.h
@@ -193,9 +193,9 @@ class ElemAroundEdge {
  public:
   std::vector<std::pair<unsigned int, unsigned int> > e;
   std::vector<unsigned int> n;
-  unsigned int nod;
-  unsigned int nou;
-  bool is_inner;
+  unsigned int nod = UINT_MAX;
+  unsigned int nou = UINT_MAX;
+  bool is_inner = false;
 
 };
 
@@ -205,7 +205,7 @@ class ElemAroundEdge {
 class ElemAroundPoint {
  public:
   std::map<int, int> e;
-  bool is_inner;
+  bool is_inner = false;
  public:
   void clear() {
     e.clear();
@@ -271,7 +271,7 @@ bool operator < (const CFlipCrtPrePosPtn& lhs, const CFlipCrtPrePosPtn& rhs);
  */
 class CDynPointTet {
  public:
-  CDynPointTet() {}
+  CDynPointTet() : e(UINT_MAX), poel(0) {}
   CDynPointTet(const CDynPointTet &rhs)
       : e(rhs.e), poel(rhs.poel), p(rhs.p)//,old_p(rhs.old_p){}
   {}
diff --git a/include/delfem2/isrf_adf.h b/include/delfem2/isrf_adf.h
index d84049c..fca5f3a 100644
--- a/include/delfem2/isrf_adf.h
+++ b/include/delfem2/isrf_adf.h
@@ -62,7 +62,7 @@ class AdaptiveDistanceField3 {
   };
  public:
   std::vector<CNode> aNode;
-  double dist_min, dist_max;
+  double dist_min = 0.0, dist_max = 0.0;
 };
 
 
diff --git a/include/delfem2/lp.h b/include/delfem2/lp.h
index dafa129..a1f9318 100644
--- a/include/delfem2/lp.h
+++ b/include/delfem2/lp.h
@@ -66,7 +66,7 @@ private:
 public:
   std::vector<CEq> aEq;
   //
-  unsigned int neq, nvar, nslk, nart;
+  unsigned int neq = 0, nvar = 0, nslk = 0, nart = 0;
   std::vector<unsigned int> map_col2row;
   std::vector<double> A;
 };
diff --git a/include/delfem2/msh_uniform_class.h b/include/delfem2/msh_uniform_class.h
index 5130480..3c9a5f3 100644
--- a/include/delfem2/msh_uniform_class.h
+++ b/include/delfem2/msh_uniform_class.h
@@ -110,10 +110,10 @@ public:
                            s);
   }
 public:
-  delfem2::MESHELEM_TYPE elem_type;
+  delfem2::MESHELEM_TYPE elem_type = delfem2::MESHELEM_TRI;
   std::vector<unsigned int> aElem;
   //
-  int ndim;
+  int ndim = 3;
   std::vector<double> aPos;
   //
   std::vector<float> color_face;
diff --git a/include/delfem2/polyline_elastic_beam2.h b/include/delfem2/polyline_elastic_beam2.h
index abcb68a..e0f864c 100644
--- a/include/delfem2/polyline_elastic_beam2.h
+++ b/include/delfem2/polyline_elastic_beam2.h
@@ -65,7 +65,7 @@ class PolylineElasticEdit2 {
   double EI;
   double ARho;
   double AE;
-  double rho;
+  double rho = 0.0;
  public:
   std::vector<double> dut;
   std::vector<double> Res;
-- 
2.43.0


From 24627d2eb2870b5312080a82a347fc5d12ee0d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 23/57] fix: copying CMathExpressionEvaluator releases its
 commands twice

---
 include/delfem2/parse_math_expression.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/parse_math_expression.h b/include/delfem2/parse_math_expression.h
index 01a4653..184d5d0 100644
--- a/include/delfem2/parse_math_expression.h
+++ b/include/delfem2/parse_math_expression.h
@@ -44,6 +44,8 @@ class CMathExpressionEvaluator {
   CMathExpressionEvaluator() { m_is_valid = false; }
   CMathExpressionEvaluator(const std::string &exp) { this->SetExp(exp); }
   ~CMathExpressionEvaluator();
+  CMathExpressionEvaluator(const CMathExpressionEvaluator &) = delete;  // owns the commands
+  CMathExpressionEvaluator &operator=(const CMathExpressionEvaluator &) = delete;
 
   // --------------------
   bool SetExp(const std::string &key_name);
-- 
2.43.0


From 850e9368c573ada75756eb7ae6152768b5649463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 24/57] fix: nearest point / arc length queries on
 double-precision polylines compare distances in single precision

---
 include/delfem2/geo_polyline.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..d151f6e 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -55,7 +55,7 @@ unsigned int FindNearestPointInPoints(
     const std::vector<VEC> &polyline,
     const VEC &scr) {
   unsigned int idx_point_min_dist = UINT_MAX;
-  float dist_min = -1;
+  typename VEC::Scalar dist_min = -1;
   for (unsigned int ip = 0; ip < polyline.size(); ++ip) {
     auto dist = (scr - polyline[ip]).norm();
     if (dist_min < 0 || dist < dist_min) {
@@ -223,12 +223,12 @@ auto ArcLengthPointInPolyline(
     const VEC &scr) -> typename VEC::Scalar {
   using SCALAR = typename VEC::Scalar;
   if (polyline.size() < 2) { return 0; }
-  float dist_min = -1;
+  SCALAR dist_min = -1;
   VEC p_min;
   unsigned int ip_min = -1;
   for (unsigned int ip = 0; ip < polyline.size() - 1; ++ip) {
     VEC p_near = Nearest_Edge_Point(scr, polyline[ip], polyline[ip + 1]);
-    float dist = (p_near - scr).norm();
+    const SCALAR dist = (p_near - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
       dist_min = dist;
       p_min = p_near;
-- 
2.43.0


From 960f65436c43ca7f1ab24a2feba6c126cb6a7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 25/57] fix: complex-valued iterative solvers do not compile
 when used (renamed matrix members, pointer arguments)

---
 include/delfem2/vecxitrsol.h | 56 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 84d79fa..7528f0f 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -157,18 +157,18 @@ Solve_CG_Complex(
     const MAT& mat)
 {
   using COMPLEX = std::complex<REAL>;
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   std::vector<double> aConv;
   u_vec.assign(ndof, 0.0);   // {x} = 0
   double sqnorm_res = Dot(r_vec, r_vec).real();
   if (sqnorm_res < 1.0e-30) { return aConv; }
   const double inv_sqnorm_res_ini = 1.0 / sqnorm_res;
-  COMPLEX Ap_vec(ndof);
-  COMPLEX p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
+  std::vector<COMPLEX> Ap_vec(ndof);
+  std::vector<COMPLEX> p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
   for (unsigned int iitr = 0; iitr < max_iteration; iitr++) {
     double alpha;
     {  // alpha = (r,r) / (p,Ap)
@@ -285,10 +285,10 @@ Solve_BiCGSTAB_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   //
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
@@ -447,17 +447,17 @@ std::vector<double> Solve_PBiCGStab_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   
-  assert( !mat.valDia.empty() );
-  assert( mat.nblk_col == mat.nblk_row );
-  assert( mat.nrowdim == mat.len_row );
-  const unsigned int ndof = mat.nblk_col*mat.nrowdim;
+  assert( !mat.val_dia_.empty() );
+  assert( mat.nrowblk_ == mat.ncolblk_ );
+  assert( mat.nrowdim_ == mat.ncoldim_ );
+  const unsigned int ndof = mat.nrowblk_*mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for(unsigned int i=0;i<ndof;++i){ x_vec[i] = COMPLEX(0.0,0.0); }   // {u} = 0
   
   double sq_inv_norm_res_ini;
   {
-    const double sq_norm_res_ini = Dot(r_vec,r_vec,ndof).real();
+    const double sq_norm_res_ini = DotX(r_vec,r_vec,ndof).real();
     if( sq_norm_res_ini < 1.0e-60 ){
       aResHistry.push_back( sqrt( sq_norm_res_ini ) );
       return aResHistry;
@@ -475,12 +475,12 @@ std::vector<double> Solve_PBiCGStab_Complex(
   std::vector<COMPLEX> p_vec(r_vec,r_vec+ndof);  // {p} = {r}
   
   // calc (r,r0*)
-  COMPLEX r_r0 = Dot(r_vec,r0_vec.data(),ndof);
+  COMPLEX r_r0 = DotX(r_vec,r0_vec.data(),ndof);
   
   for(unsigned int itr=0;itr<max_niter;itr++){
     // {Mp_vec} = [M^-1]*{p}
     Mp_vec.assign(p_vec.begin(),p_vec.end());
-    ilu.SolvePrecond(Mp_vec);
+    ilu.SolvePrecond(Mp_vec.data());
     // calc {AMp_vec} = [A]*{Mp_vec}
     mat.MatVec(AMp_vec.data(),
                COMPLEX(1,0), Mp_vec.data(), COMPLEX(0,0));
@@ -491,7 +491,7 @@ std::vector<double> Solve_PBiCGStab_Complex(
     AXPY(-alpha,AMp_vec,s_vec);
     // {Ms_vec} = [M^-1]*{s}
     Ms_vec.assign(s_vec.begin(),s_vec.end());
-    ilu.SolvePrecond(Ms_vec);
+    ilu.SolvePrecond(Ms_vec.data());
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
@@ -499,14 +499,14 @@ std::vector<double> Solve_PBiCGStab_Complex(
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-      const double sq_norm_res = Dot(r_vec,r_vec,ndof).real();
+      const double sq_norm_res = DotX(r_vec,r_vec,ndof).real();
       const double conv_ratio = sqrt(sq_norm_res * sq_inv_norm_res_ini);
       aResHistry.push_back( conv_ratio );
       if( conv_ratio < conv_ratio_tol ){ return aResHistry; }
     }
     COMPLEX beta;
     {  // calc beta
-      const COMPLEX tmp1 = Dot(r_vec,r0_vec.data(),ndof);
+      const COMPLEX tmp1 = DotX(r_vec,r0_vec.data(),ndof);
       beta = (tmp1*alpha)/(r_r0*omega);
       r_r0 = tmp1;
     }
@@ -528,14 +528,14 @@ std::vector<double> Solve_PCG_Complex(
 {
   using COMPLEX = std::complex<REAL>;
 
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for (unsigned int i = 0; i < ndof; i++) { x_vec[i] = COMPLEX(0.0, 0.0); }    // {x} = 0
   
   double inv_sqnorm_res0;
   {
-    const double sqnorm_res0 = Dot(r_vec, r_vec, ndof).real();
+    const double sqnorm_res0 = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqnorm_res0);
     if (sqnorm_res0 < 1.0e-30) { return aResHistry; }
     inv_sqnorm_res0 = 1.0 / sqnorm_res0;
@@ -543,11 +543,11 @@ std::vector<double> Solve_PCG_Complex(
   
   // {Pr} = [P]{r}
   std::vector<COMPLEX> Pr_vec(r_vec, r_vec + ndof);
-  ilu.SolvePrecond(Pr_vec);
+  ilu.SolvePrecond(Pr_vec.data());
   // {p} = {Pr}
   std::vector<COMPLEX> p_vec = Pr_vec;
   // rPr = ({r},{Pr})
-  COMPLEX rPr = Dot(r_vec, Pr_vec.data(), ndof);
+  COMPLEX rPr = DotX(r_vec, Pr_vec.data(), ndof);
   for (unsigned int iitr = 0; iitr < max_nitr; iitr++) {
     {
       std::vector<COMPLEX> &Ap_vec = Pr_vec;
@@ -561,7 +561,7 @@ std::vector<double> Solve_PCG_Complex(
       AXPY(+alpha, p_vec.data(), x_vec, ndof);       // {x} = +alpha*{p } + {x}
     }
     {  // Converge Judgement
-      double sqnorm_res = Dot(r_vec, r_vec, ndof).real();
+      double sqnorm_res = DotX(r_vec, r_vec, ndof).real();
       double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res0);
       aResHistry.push_back(conv_ratio);
       if (conv_ratio < conv_ratio_tol) { return aResHistry; }
@@ -569,9 +569,9 @@ std::vector<double> Solve_PCG_Complex(
     {  // calc beta
        // {Pr} = [P]{r}
       for (unsigned int i = 0; i < ndof; i++) { Pr_vec[i] = r_vec[i]; }
-      ilu.SolvePrecond(Pr_vec);
+      ilu.SolvePrecond(Pr_vec.data());
       // rPr1 = ({r},{Pr})
-      const COMPLEX rPr1 = Dot(r_vec, Pr_vec.data(), ndof);
+      const COMPLEX rPr1 = DotX(r_vec, Pr_vec.data(), ndof);
       // beta = rPr1/rPr
       COMPLEX beta = rPr1 / rPr;
       rPr = rPr1;
@@ -581,7 +581,7 @@ std::vector<double> Solve_PCG_Complex(
   }
   {
     // Converge Judgement
-    double sq_norm_res = Dot(r_vec, r_vec, ndof).real();
+    double sq_norm_res = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqrt(sq_norm_res));
   }
   return aResHistry;
-- 
2.43.0


From e7d480fa4c3aeea4a023486a35b94004dbf157b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 26/57] fix: tangent query past the last-but-one vertex of a
 polyline reads out of range; polyline queries and bounding boxes of 3D curves
 do not compile

---
 include/delfem2/geo_polyline.h | 6 +++---
 include/delfem2/vec3.h         | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index d151f6e..5b2c73e 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -135,7 +135,7 @@ VEC Sample_Polyline(
     typename VEC::Scalar param) {
   using SCALAR = typename VEC::Scalar;
   assert(!polyline.empty());
-  if (polyline.empty()) { return VEC(0, 0); }
+  if (polyline.empty()) { return VEC(); }
   if (param <= 0) { return polyline[0]; }
   if (param >= static_cast<SCALAR>(polyline.size()-1)) {
     return polyline[polyline.size() - 1];
@@ -153,9 +153,9 @@ VEC Tangent_Polyline(
   using SCALAR = typename VEC::Scalar;
   const size_t np = polyline.size();
   assert(np>=2);
-  if (np < 2) { return VEC(0, 0); }
+  if (np < 2) { return VEC(); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
diff --git a/include/delfem2/vec3.h b/include/delfem2/vec3.h
index d8ee52e..6950a47 100644
--- a/include/delfem2/vec3.h
+++ b/include/delfem2/vec3.h
@@ -258,6 +258,7 @@ class CVec3 {
 
   using Scalar = T;
   using value_type = Scalar;
+  static constexpr int SizeAtCompileTime = 3;  // size of vector evaluated at compile time
   static constexpr T NEARLY_ZERO = static_cast<T>(1.e-16);
 
  public:
-- 
2.43.0


From 6bb1ca9c12e6683ca18e37d99d19b85a891d463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 27/57] fix: Q1 linear solid merge does not compile when used

---
 include/delfem2/fem_solidlinear.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_solidlinear.h b/include/delfem2/fem_solidlinear.h
index 363d5fa..8ab4886 100644
--- a/include/delfem2/fem_solidlinear.h
+++ b/include/delfem2/fem_solidlinear.h
@@ -251,7 +251,7 @@ void MergeLinSys_LinearSolid3D_Static_Q1(
   const unsigned int np = aXYZ.size()/3;
   const unsigned int nDoF = np*3;
   //
-  mat_A.SetZero();
+  mat_A.setZero();
   vec_b.assign(nDoF, 0.0);
   std::vector<unsigned int> tmp_buffer(np, UINT_MAX);
   for (unsigned int iel = 0; iel<aHex.size()/8; ++iel){
-- 
2.43.0


From 1b7f21d160b287284e9fd182f3123f8235e8b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 28/57] fix: Bezier curve/surface evaluation calls a function
 that does not exist

---
 include/delfem2/geo_curve_cubic.h        |  2 +-
 include/delfem2/geo_surface_parametric.h | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 0ba8dcc..113d105 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -149,7 +149,7 @@ void getCubicBezierCurve(
   for (int is = 0; is < ns; is++) {
     for (int i = 0; i < n; i++) {
       double t = (double) i / n;
-      aP[is * n + i] = getPointCubicBezierCurve(
+      aP[is * n + i] = PointOnCubicBezierCurve(
           t,
           aCP[is * 3 + 0],
           aCP[is * 3 + 1],
diff --git a/include/delfem2/geo_surface_parametric.h b/include/delfem2/geo_surface_parametric.h
index ce52a0a..ac43b5a 100644
--- a/include/delfem2/geo_surface_parametric.h
+++ b/include/delfem2/geo_surface_parametric.h
@@ -20,18 +20,20 @@
 #include <cstdio>
 #include <vector>
 
+#include "delfem2/geo_curve_cubic.h"
+
 namespace delfem2 {
 
 template<typename T>
 T getPointCoonsQuad_CubicBezier(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   //
   T r = (1 - u) * (1 - v) * aP[0]
@@ -65,12 +67,12 @@ template<typename T>
 T getPointCoonsQuad_CubicBezierEdge(
   double u, double v,
   T aP[12]) {
-  T p01u = getPointCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
-  T p32u = getPointCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
+  T p01u = PointOnCubicBezierCurve(u, aP[0], aP[1], aP[2], aP[3]);
+  T p32u = PointOnCubicBezierCurve(u, aP[9], aP[8], aP[7], aP[6]);
   T p = (1 - v) * p01u + v * p32u;
   //
-  T q03v = getPointCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
-  T q12v = getPointCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
+  T q03v = PointOnCubicBezierCurve(v, aP[0], aP[11], aP[10], aP[9]);
+  T q12v = PointOnCubicBezierCurve(v, aP[3], aP[4], aP[5], aP[6]);
   T q = (1 - u) * q03v + u * q12v;
   T r = (1 - u) * (1 - v) * aP[0]
     + u * (1 - v) * aP[3]
-- 
2.43.0


From 0e26718cb7792507df66e4c6458bd39fe575123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 29/57] fix: generic geometry operations (2D/3D distances,
 nearest points, areas, mean value coordinates) call functions that do not
 exist

---
 include/delfem2/cagedef.h             |  6 +++---
 include/delfem2/geo_edge.cpp          |  2 +-
 include/delfem2/geo_line.cpp          |  6 +++---
 include/delfem2/geo_plane.cpp         |  2 +-
 include/delfem2/geo_polygon2.cpp      |  4 ++--
 include/delfem2/geosolidelm_v3.cpp    | 11 +++++++----
 include/delfem2/srch_bruteforce.cpp   |  6 +++---
 include/delfem2/srch_trimesh3_class.h |  6 +++---
 include/delfem2/vec2.cpp              |  6 +++---
 9 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/include/delfem2/cagedef.h b/include/delfem2/cagedef.h
index ddc3c76..9f3df7b 100644
--- a/include/delfem2/cagedef.h
+++ b/include/delfem2/cagedef.h
@@ -223,11 +223,11 @@ void MeanValueCoordinate_Polygon2(
     VEC v0 = aVtx[iv0] - p;
     VEC v1 = aVtx[iv1] - p;
     VEC v2 = aVtx[iv2] - p;
-    double c01 = (v0 * v1) / (v0.Length() * v1.Length());
-    double c12 = (v1 * v2) / (v1.Length() * v2.Length());
+    double c01 = v0.dot(v1) / (v0.norm() * v1.norm());
+    double c12 = v1.dot(v2) / (v1.norm() * v2.norm());
     double t01 = sqrt((1 - c01) / (1 + c01));
     double t12 = sqrt((1 - c12) / (1 + c12));
-    double w1 = (t01 + t12) / v1.Length();
+    double w1 = (t01 + t12) / v1.norm();
     aW[iv1] = w1;
     sum += w1;
   }
diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 3acd118..300bd88 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -184,7 +184,7 @@ double delfem2::Distance_Edge2_Edge2(
   const CVec2<T> &po_e0,
   const CVec2<T> &po_s1,
   const CVec2<T> &po_e1) {
-  if (IsCross_LineSeg_LineSeg(po_s0, po_e0, po_s1, po_e1)) return -1;
+  if (IsIntersect_Edge2_Edge2(po_s0, po_e0, po_s1, po_e1)) return -1;
   const double ds1 = Distance_Edge_Point(po_s0, po_s1, po_e1);
   const double de1 = Distance_Edge_Point(po_e0, po_s1, po_e1);
   const double ds0 = Distance_Edge_Point(po_s1, po_s0, po_e0);
diff --git a/include/delfem2/geo_line.cpp b/include/delfem2/geo_line.cpp
index efdef3b..785017f 100644
--- a/include/delfem2/geo_line.cpp
+++ b/include/delfem2/geo_line.cpp
@@ -168,13 +168,13 @@ delfem2::CVec3<T> delfem2::Nearest_Line3_Point3(
   const CVec3<T> &s, // source
   const CVec3<T> &d) // direction
 {
-  if (Dot(d, d) < 1.0e-20) {
+  if (d.dot(d) < 1.0e-20) {
     t = 0;
     return s;
   }
   const CVec3<T> ps = s - p;
-  double a = Dot(d, d);
-  double b = Dot(d, s - p);
+  double a = d.dot(d);
+  double b = d.dot(s - p);
   t = -b / a;
   return s + t * d;
 }
diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index 94c9f78..bbbeed4 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -57,7 +57,7 @@ delfem2::CVec3<T> delfem2::Nearest_Plane3_Point3(
   const CVec3<T> &n) // normal
 {
   const CVec3<T> n0 = n.normalized();
-  return p + ((o - p) * n0) * n0;
+  return p + ((o - p).dot(n0)) * n0;
 }
 
 // -------------------------------------
diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..7fb9f17 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -63,7 +63,7 @@ double delfem2::Area_Polygon(
   const int ne = aP.size();
   double area_loop = 0.0;
   for (int ie = 0; ie < ne; ie++) {
-    area_loop += Area_Tri(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
+    area_loop += Area_Tri2(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
   }
   return area_loop;
 }
@@ -107,7 +107,7 @@ std::vector<delfem2::CVec2<T>> delfem2::Polygon_Resample_Polygon(
     if (jcur > (int) stroke0.size() - 1) break;
     int ip0 = jcur;
     int ip1 = (jcur + 1) % stroke0.size();
-    double lenj = (stroke0[ip1] - stroke0[ip0]).Length();
+    double lenj = (stroke0[ip1] - stroke0[ip0]).norm();
     double lenjr = lenj * (1.0 - rcur);
     if (lenjr > lcur) { // put point in this segment
       rcur += lcur / lenj;
diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index b940348..32da399 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -236,10 +236,13 @@ void delfem2::iteration_barycentricCoord_Origin_Solid(
   double C[9] = {cxx, cxy, cxz, cxy, cyy, cyz, cxz, cyz, czz};
   double Cinv[9];
   lcl::MyInverse_Mat3(Cinv, C);
-  const CVec3<T> d = damp * Mat3Vec(Cinv, q);
-  r0 -= dpdr0 * d;
-  r1 -= dpdr1 * d;
-  r2 -= dpdr2 * d;
+  const double q0[3] = {q.p[0], q.p[1], q.p[2]};
+  double d0[3];
+  lcl::MyMatVec3(d0, Cinv, q0);
+  const CVec3<T> d = damp * CVec3<T>(d0[0], d0[1], d0[2]);
+  r0 -= dpdr0.dot(d);
+  r1 -= dpdr1.dot(d);
+  r2 -= dpdr2.dot(d);
 }
 
 template<typename T>
diff --git a/include/delfem2/srch_bruteforce.cpp b/include/delfem2/srch_bruteforce.cpp
index 2fbaa47..bbc296b 100644
--- a/include/delfem2/srch_bruteforce.cpp
+++ b/include/delfem2/srch_bruteforce.cpp
@@ -425,9 +425,9 @@ delfem2::PointOnSurfaceMesh<T> delfem2::Nearest_Point_MeshTetFace3D(
     CVec3<T> q0(aXYZ[i0 * 3 + 0], aXYZ[i0 * 3 + 1], aXYZ[i0 * 3 + 2]);
     CVec3<T> q1(aXYZ[i1 * 3 + 0], aXYZ[i1 * 3 + 1], aXYZ[i1 * 3 + 2]);
     CVec3<T> q2(aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]);
-    double a0 = Area_Tri(p_min, q1, q2);
-    double a1 = Area_Tri(p_min, q2, q0);
-    double a2 = Area_Tri(p_min, q0, q1);
+    double a0 = Area_Tri3(p_min, q1, q2);
+    double a1 = Area_Tri3(p_min, q2, q0);
+    double a2 = Area_Tri3(p_min, q0, q1);
     double inva = 1.0 / (a0 + a1 + a2);
     a0 *= inva;
     a1 *= inva;
diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index a77cea9..f59c3c0 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -334,9 +334,9 @@ void Project_PointsIncludedInBVH_Outside(
     double sdf = SDFNormal_NearestPoint(n0,
                                         p0, pes, aXYZ0, aTri0, aNorm0);
     if (sdf + cc < 0) continue;
-    aXYZt[ip * 3 + 0] += (sdf + cc) * n0.x();
-    aXYZt[ip * 3 + 1] += (sdf + cc) * n0.y();
-    aXYZt[ip * 3 + 2] += (sdf + cc) * n0.z();
+    aXYZt[ip * 3 + 0] += (sdf + cc) * n0.x;
+    aXYZt[ip * 3 + 1] += (sdf + cc) * n0.y;
+    aXYZt[ip * 3 + 2] += (sdf + cc) * n0.z;
   }
 }
 
diff --git a/include/delfem2/vec2.cpp b/include/delfem2/vec2.cpp
index 459dd8a..9ef62de 100644
--- a/include/delfem2/vec2.cpp
+++ b/include/delfem2/vec2.cpp
@@ -323,7 +323,7 @@ double delfem2::SquareDistance(
 // Hight of a triangle : between v1 and line of v2-v3
 template<typename T>
 double delfem2::TriHeight(const CVec2<T> &v1, const CVec2<T> &v2, const CVec2<T> &v3) {
-  const double area = Area_Tri(v1, v2, v3);
+  const double area = Area_Tri2(v1, v2, v3);
   const double len = sqrt(SquareDistance(v2, v3));
   return area * 2.0 / len;
 }
@@ -346,7 +346,7 @@ double delfem2::SquareCircumradius(
     const CVec2<T> &p0,
     const CVec2<T> &p1,
     const CVec2<T> &p2) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
 
   const double dtmp0 = SquareDistance(p1, p2);
   const double dtmp1 = SquareDistance(p0, p2);
@@ -362,7 +362,7 @@ bool delfem2::CenterCircumcircle(
     const CVec2<T> &p1,
     const CVec2<T> &p2,
     CVec2<T> &center) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
   if (fabs(area) < 1.0e-10) { return false; }
   const double tmp_val = 1.0 / (area * area * 16.0);
 
-- 
2.43.0


From 910c26f232664c8329d42fb957c9e03e2472242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 30/57] fix: ray generation and uniform hemisphere sampling do
 not compile for float

---
 include/delfem2/mat4.h     | 6 ++++--
 include/delfem2/sampling.h | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/mat4.h b/include/delfem2/mat4.h
index b4b6db3..f15c329 100644
--- a/include/delfem2/mat4.h
+++ b/include/delfem2/mat4.h
@@ -338,8 +338,10 @@ std::pair<std::array<T, 3>, std::array<T, 3>> RayFromInverseMvpMatrix(
     int ih,
     unsigned int nwidth,
     unsigned int nheight) {
-  const T ps[4] = {-1. + (2. / nwidth) * (iw + 0.5), -1. + (2. / nheight) * (ih + 0.5), +1., 1.};
-  const T pe[4] = {-1. + (2. / nwidth) * (iw + 0.5), -1. + (2. / nheight) * (ih + 0.5), -1., 1.};
+  const T px = static_cast<T>(-1. + (2. / nwidth) * (iw + 0.5));
+  const T py = static_cast<T>(-1. + (2. / nheight) * (ih + 0.5));
+  const T ps[4] = {px, py, +1, 1};
+  const T pe[4] = {px, py, -1, 1};
   std::array<T, 3> qs = Vec3_Mat4Vec3_Homography(mMVPd_inv,ps);
   std::array<T, 3> qe = Vec3_Mat4Vec3_Homography(mMVPd_inv,pe);
   std::array<T, 3> d = {qe[0] - qs[0], qe[1] - qs[1], qe[2] - qs[2]};
diff --git a/include/delfem2/sampling.h b/include/delfem2/sampling.h
index 3a62c90..e957bfb 100644
--- a/include/delfem2/sampling.h
+++ b/include/delfem2/sampling.h
@@ -107,7 +107,7 @@ template<typename T>
 inline std::array<T, 3> SampleHemisphereZupUniform(
     const std::array<T, 2> &v2) {
   auto z = v2[0];
-  auto r = std::sqrt(std::clamp(1 - z * z, 0, 1));
+  auto r = std::sqrt(std::clamp<T>(1 - z * z, 0, 1));
   auto phi = 2 * M_PI * v2[1];
   return {r * cos(phi), r * sin(phi), z};
 }
-- 
2.43.0


From eb36b7f13f12ba1aebc19b18e2e6b3c73ad059ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:56 +0000
Subject: [PATCH 31/57] fix: triangle kd-tree keeps its bounds in single
 precision for double-precision meshes

---
 include/delfem2/srch_kdtree_tri.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..4e28d3c 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -23,9 +23,9 @@ struct KDTTriangle {
 
 		int parent	     = -1;
 		int rightchild	     = -1;
-		float realboundright = 0.0;
+		SCALAR realboundright = 0.0;
 		int leftchild	     = -1;
-		float realboundleft  = 0.0;
+		SCALAR realboundleft  = 0.0;
 
 		KDTNodeTriangle(const int TriInd, const std::vector<VEC>& PointList, const std::vector<unsigned int>& TriList)
 		    : TriInd(TriInd)
-- 
2.43.0


From 9afbc92a3e0c8b5c5298add83f834a6d3f3c5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 32/57] fix: element edge tables: tetrahedron and voxel edges,
 tables for every element type

---
 include/delfem2/mshelm.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..7b2a3c8 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -129,14 +129,18 @@ const int noelElemFace_Wed[5][4] = {
   { 3, 5, 4,-1}
 };
 
-const int mapMeshElemType2NEdgeElem[7] = {
+const int mapMeshElemType2NEdgeElem[8] = {
   3, // TRI
   6, // TET
   4, // QUAD
   12, // HEX
   8, // PYRAM
   9, // WEDGE
-  12  // VOX
+  12, // VOX
+  1   // LINE
+};
+const int noelElemEdge_Line[1][2] = {
+  { 0, 1},
 };
 const int noelElemEdge_Tri[3][2] = {
   { 0, 1},
@@ -149,7 +153,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
@@ -162,11 +166,19 @@ const int noelElemEdge_Hex[12][2] = {
   {4,5},{5,6},{6,7},{7,4},
   {0,4},{1,5},{2,6},{3,7}
 };
-// TODO: this looks wrong...
-const int noelElemEdge_Vox[12][2] = {
-  {0,1},{3,2},{4,5},{7,6},
-  {0,3},{1,2},{4,7},{5,6},
-  {0,4},{1,5},{3,7},{2,6}
+const int noelElemEdge_Pyram[8][2] = {
+  {0,1},{1,2},{2,3},{3,0},
+  {0,4},{1,4},{2,4},{3,4}
+};
+const int noelElemEdge_Wed[9][2] = {
+  {0,1},{1,2},{2,0},
+  {3,4},{4,5},{5,3},
+  {0,3},{1,4},{2,5}
+};
+const int noelElemEdge_Vox[12][2] = { // this numbering is corresponds to VTK_VOX
+  {0,1},{2,3},{4,5},{6,7},
+  {0,2},{1,3},{4,6},{5,7},
+  {0,4},{1,5},{2,6},{3,7}
 };
 
 // -----------------------------
@@ -195,11 +207,15 @@ inline const int (*noelElemFace(MESHELEM_TYPE type))[4]
 }
 inline const int (*noelElemEdge(MESHELEM_TYPE type))[2]
 {
-  const int (*noelElemEdge0[4])[2] = {
+  const int (*noelElemEdge0[8])[2] = {
     noelElemEdge_Tri,
     noelElemEdge_Tet,
     noelElemEdge_Quad,
-    noelElemEdge_Hex
+    noelElemEdge_Hex,
+    noelElemEdge_Pyram,
+    noelElemEdge_Wed,
+    noelElemEdge_Vox,
+    noelElemEdge_Line
   };
   return noelElemEdge0[type];
 }
-- 
2.43.0


From 1888bcbfced636c6794b275284f36237219bceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 33/57] fix: separating axis test tries all nine edge pairs of
 two triangles

---
 include/delfem2/geo_gjksat3.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 8726b52..8f577e0 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -370,14 +370,17 @@ bool IsIntersect_Points3_Points3_Sat(
 			edgeA[1] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 0]];
 			edgeA[2] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 1]];
 
-			for (unsigned int i = 0; i < 6; i++) {
+			for (unsigned int i = 0; i < 9; i++) {
 
-				constexpr unsigned int FaceToEdge[12] = {
+				constexpr unsigned int FaceToEdge[18] = {
 					0, 0,
 					0, 1,
 					0, 2,
+					1, 0,
 					1, 1,
 					1, 2,
+					2, 0,
+					2, 1,
 					2, 2
 				};
 
-- 
2.43.0


From 318d31c9b12b26485744a859d1f556bb54e0d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 34/57] fix: z component of Vec3_SpinVectorFromMat3 is m10-m01

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From 06452e86f276f1642af2bce435df5ec722055966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 35/57] fix: Nearest_LineSeg_LineSeg_CCD_Iteration adds the
 second-order term of the Hessian

---
 include/delfem2/geo_ccd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b6c8009..518f403 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -163,7 +163,7 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
     double R[3] = {v0.dot(ds), v0.dot(dt), v0.dot(du)};
     double A[9] = {
       ds.dot(ds), ds.dot(dt), ds.dot(du) + v0.dot(dsu),
-      dt.dot(ds), dt.dot(dt), dt.dot(du) * v0.dot(dtu),
+      dt.dot(ds), dt.dot(dt), dt.dot(du) + v0.dot(dtu),
       du.dot(ds) + v0.dot(dsu), du.dot(dt) + v0.dot(dtu), du.dot(du)};
     {
       double eps = (A[0] + A[4] + A[8]) * 1.0e-10 + 1.0e-20;
-- 
2.43.0


From 7eeb0e7a302ceeb25dec20a9d8c10db31082408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 36/57] fix: viscous time scale of the 3D Navier-Stokes
 stabilization uses the kinematic viscosity

---
 include/delfem2/fem_navierstokes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 999bf45..abd220f 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -341,7 +341,7 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
       tau_sugn1 = h_ugn * 0.5 / norm_v;
     }
     double tau_sugn2 = dt * 0.50;
-    double tau_sugn3 = h_ugn * h_ugn * 0.25 / myu;
+    double tau_sugn3 = h_ugn * h_ugn * rho * 0.25 / myu;
     double inv1 = 0.0;
     if( fabs(tau_sugn1) > 1.0e-10 ){
       inv1 = 1.0 / tau_sugn1;
-- 
2.43.0


From c09b4acde56d449bc9c4a3a679eb2dd3d2c94de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 37/57] fix: Nearst_Origin3_Quad3 evaluates the point it
 measures

---
 include/delfem2/geo_quad.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..2dc54af 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -64,6 +64,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 += d0;
       t1 += d1;
     }
+    q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
       double d0 = q.norm();
-- 
2.43.0


From ed9ae5ddd2de80de3daff18c7aba06181b3df6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 38/57] fix: ProjectPointOnTriangle compiles when used, and
 accepts a point on the triangle's corner

---
 include/delfem2/geo_tri.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..3c3b925 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -323,9 +323,8 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
   CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double cosAlpha = Dot(p0 - tri_p1, normal) / (Length(p0 - tri_p1) * Length(normal));
-  double lenP0ProjectedP0 = Length(tri_p1 - p0) * cosAlpha;
-  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
+  normal.normalize();
+  CVec3<T> p0ProjectedP0 = -(p0 - tri_p1).dot(normal) * normal;
   return p0 + p0ProjectedP0;
 }
 
-- 
2.43.0


From 3574c643de54b208c8867d3fc44523450d10c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 39/57] fix: Volume_Pyramid/Volume_Wedge compile when used;
 wedge counts its third quad face

---
 include/delfem2/geosolidelm_v3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geosolidelm_v3.cpp b/include/delfem2/geosolidelm_v3.cpp
index 32da399..07a805c 100644
--- a/include/delfem2/geosolidelm_v3.cpp
+++ b/include/delfem2/geosolidelm_v3.cpp
@@ -12,6 +12,7 @@
 
 #include "delfem2/vec3_funcs.h"
 #include "delfem2/geo_tri.h"
+#include "delfem2/geo_tet.h"
 
 #ifndef M_PI
 #  define M_PI 3.14159265358979323846
@@ -327,7 +328,7 @@ double delfem2::Volume_Wedge(
   double vm435 = Volume_Tet(pm, p4, p3, p5);
   double vp0143 = Volume_Pyramid(p0, p1, p4, p3, pm);
   double vp1254 = Volume_Pyramid(p1, p2, p5, p4, pm);
-  double vp2035 = Volume_Pyramid(p2, p2, p3, p5, pm);
+  double vp2035 = Volume_Pyramid(p2, p0, p3, p5, pm);
   return vm012 + vm435 + vp0143 + vp1254 + vp2035;
 }
 
-- 
2.43.0


From 772ab75c92d7e601484fe82d2f4fa1a20c8e6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 40/57] fix: define the scalar product and quotient of CQuat
 declared in quat.h

---
 include/delfem2/quat.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/delfem2/quat.cpp b/include/delfem2/quat.cpp
index 0534778..d3e494d 100644
--- a/include/delfem2/quat.cpp
+++ b/include/delfem2/quat.cpp
@@ -8,6 +8,7 @@
 #include "delfem2/quat.h"
 
 #include <cmath>
+#include <ostream>
 
 #ifndef M_PI
 #  define M_PI 3.141592
@@ -317,11 +318,41 @@ template CQuat<float> operator*(const CQuat<float> &lhs, float rhs);
 
 // ---------------------
 
+template<typename T>
+CQuat<T> operator*(const T lhs, const CQuat<T> &rhs) {
+  return rhs * lhs;
+}
+#ifdef DFM2_STATIC_LIBRARY
+template CQuat<double> operator*(double lhs, const CQuat<double> &rhs);
+template CQuat<float> operator*(float lhs, const CQuat<float> &rhs);
+#endif
+
+// ---------------------
+
+template<typename T>
+CQuat<T> operator/(const CQuat<T> &lhs, const T rhs) {
+  CQuat<T> q(lhs.w / rhs,
+             lhs.x / rhs,
+             lhs.y / rhs,
+             lhs.z / rhs);
+  return q;
+}
+#ifdef DFM2_STATIC_LIBRARY
+template CQuat<double> operator/(const CQuat<double> &lhs, double rhs);
+template CQuat<float> operator/(const CQuat<float> &lhs, float rhs);
+#endif
+
+// ---------------------
+
 template<typename T>
 std::ostream &operator<<(std::ostream &output, const CQuat<T> &q) {
   output << q.w << " " << q.x << " " << q.y << " " << q.z;
   return output;
 }
+#ifdef DFM2_STATIC_LIBRARY
+template std::ostream &operator<<(std::ostream &output, const CQuat<double> &q);
+template std::ostream &operator<<(std::ostream &output, const CQuat<float> &q);
+#endif
 
 } // end namespace delfem2
 
-- 
2.43.0


From ce5fdb47eaa1bd0c830f3517f4496cefb2f5b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 41/57] fix: Mat3_MinimumRotation of opposite vectors is the
 rotation in world coordinates

---
 include/delfem2/mat3_funcs.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..f588c70 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -828,9 +828,15 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
       const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
       const VEC eqy = eq.cross(eqx);
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
+          eqx.x * epx.x + eqy.x * epy.x + eq.x * ep.x,
+          eqx.x * epx.y + eqy.x * epy.y + eq.x * ep.y,
+          eqx.x * epx.z + eqy.x * epy.z + eq.x * ep.z,
+          eqx.y * epx.x + eqy.y * epy.x + eq.y * ep.x,
+          eqx.y * epx.y + eqy.y * epy.y + eq.y * ep.y,
+          eqx.y * epx.z + eqy.y * epy.z + eq.y * ep.z,
+          eqx.z * epx.x + eqy.z * epy.x + eq.z * ep.x,
+          eqx.z * epx.y + eqy.z * epy.y + eq.z * ep.y,
+          eqx.z * epx.z + eqy.z * epy.z + eq.z * ep.z};
       /*
       const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
       const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-- 
2.43.0


From d50e67530bb82f553cf5d15a8aed4612ef3cf71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:52 +0000
Subject: [PATCH 42/57] fix: SUPG advection tensor of the Navier-Stokes
 elements keeps its off-diagonal terms

---
 include/delfem2/fem_navierstokes.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index abd220f..6cf9d86 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -97,6 +97,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
         tmp_mat[1][1] += velo[ino][1]*velo[jno][1];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
     }
     for(int ino=0;ino<nno;ino++){
@@ -453,7 +455,15 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
         tmp_mat[2][2] += velo[ino][2]*velo[jno][2];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[0][2] += velo[ino][0]*velo[ino][2];
+      ////
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
+      tmp_mat[1][2] += velo[ino][1]*velo[ino][2];
+      ////
+      tmp_mat[2][0] += velo[ino][2]*velo[ino][0];
+      tmp_mat[2][1] += velo[ino][2]*velo[ino][1];
       tmp_mat[2][2] += velo[ino][2]*velo[ino][2];
     }
     for(int ino=0;ino<nno;ino++){
-- 
2.43.0


From 63ee7d807bf01b8351b6b817b537fc1f0458da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 43/57] fix: mixed second-derivative terms of the MIPS energy
 are outer products in row-column order

---
 include/delfem2/fem_mips.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/fem_mips.cpp b/include/delfem2/fem_mips.cpp
index ac8a7e4..6762928 100644
--- a/include/delfem2/fem_mips.cpp
+++ b/include/delfem2/fem_mips.cpp
@@ -105,15 +105,15 @@ DFM2_INLINE void delfem2::WdWddW_MIPS(
     dE[1][idim]=EC*dEA*dad1[idim]+EA*dECd1[idim];
     dE[2][idim]=EC*dEA*dad2[idim]+EA*dECd2[idim];
   }
-  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0)*2.0;
-  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dad1,dECd0);
-  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dad2,dECd0);
-  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dad0,dECd1);
-  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1)*2.0;
-  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dad2,dECd1);
-  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dad0,dECd2);
-  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dad1,dECd2);
-  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2)*2.0;
+  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0) + dEA*op(dECd0,dad0);
+  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dECd0,dad1);
+  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dECd0,dad2);
+  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dECd1,dad0);
+  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1) + dEA*op(dECd1,dad1);
+  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dECd1,dad2);
+  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dECd2,dad0);
+  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dECd2,dad1);
+  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2) + dEA*op(dECd2,dad2);
   
   for(int idim=0;idim<3;++idim){
     for(int jdim=0;jdim<3;++jdim){
-- 
2.43.0


From d7f2e4b88f4473ed4d5485c318dc46abae1ff54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 44/57] fix: energy of quadratic bending is half the quadratic
 form its derivatives belong to

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 75e8cc9..b684c8b 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From 19b9f16ae71d01ea9dbdd61ab5b98cb531b0afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 45/57] fix: Nearest_Triangle3_Point3 ignored the inside of the
 triangle for points in its plane

---
 include/delfem2/geo_tri.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 3c3b925..69d567d 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,13 +66,10 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
-    assert(fabs(v0 + v1 + v2) > 1.0e-10);
+  if (area > 1.0e-10) {
+    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
     r1 = v1 * inv_v012;
-- 
2.43.0


From 1ff7330f08ab4d14f5670de0bd596f6dc0e35e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 46/57] fix: Length_QuadraticCurve is not a number for a
 straight curve with varying speed

---
 include/delfem2/geo_curve_quadratic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index ef2526f..bc61159 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -78,7 +78,8 @@ double Length_QuadraticCurve(
     const double tmp0 = (coe[1] + 2 * coe[2] * t) * std::sqrt(coe[0] + t * (coe[1] + coe[2] * t));
     const double tmp3 = sqrt(coe[2]);
     const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp2 = (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1);
+    // the term vanishes together with "tmp1" if the curve is straight
+    const double tmp2 = (tmp1 > 0) ? (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1) : 0.;
     return tmp0 / (4. * coe[2]) - tmp2 / (8. * coe[2] * tmp3);
   };
   return intt(1) - intt(0);
-- 
2.43.0


From e1224af2d421d216a6f0a3365f4c568347f34a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 47/57] fix: Solve_CG_Complex judges convergence on the
 residual of the current step

---
 include/delfem2/vecxitrsol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 7528f0f..b36dc2a 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -182,7 +182,7 @@ Solve_CG_Complex(
     AXPY(COMPLEX(+alpha), p_vec, u_vec);    // {x} = +alpha*{ p} + {x} (updatex)
     AXPY(COMPLEX(-alpha), Ap_vec, r_vec);  // {r} = -alpha*{Ap} + {r}
     double sqnorm_res_new = Dot(r_vec, r_vec).real();
-    const double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res_ini);
+    const double conv_ratio = sqrt(sqnorm_res_new * inv_sqnorm_res_ini);
     aConv.push_back(conv_ratio);
     if (conv_ratio < conv_ratio_tol) { return aConv; }
     { // update p
-- 
2.43.0


From e4aeeed5cb9292226cdb7f4c3d1ff052cb7c8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 48/57] fix: rectangular blocks are merged into the block
 penta-diagonal system with their own number of columns

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 189f54f..02454ed 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -162,7 +162,7 @@ class LinearSystemSolver_BlockPentaDiagonal {
         double *p = dia.GetValuePointer(aIpRow[irow], aIpCol[icol]);
         assert(p != nullptr);
         for (int i = 0; i < ndimrow; ++i) {
-          for (int j = 0; j < ndimrow; ++j) {
+          for (int j = 0; j < ndimcol; ++j) {
             p[i * ndim_ + j] += emat[irow][icol][i][j];
           }
         }
-- 
2.43.0


From d658c23b4f68d745ba0381e3ab435dcc48a1164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 49/57] fix: TangentVector_Points3 multiplies the tangential
 part by its length instead of normalising it

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..3a36abf 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1.0 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From d57b89c944d181fdde913e51f9ae920c7f190dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 50/57] fix: GetCenterWidthGroup reads the elements with the
 stride of triangles whatever their number of nodes

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From 4451c71894f4f8dbdf5441ae7145402383f91168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 51/57] fix: SolidAngleTri3D is off by a half turn when the
 triangle covers more than a quarter of the sphere

---
 include/delfem2/mshmisc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..bab2282 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -517,8 +517,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From dcf3d2c1813c6babf7465d9d6fdada9bfb9d97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 52/57] fix: LinearInterpolationOnGrid2 extrapolates outside
 the grid although it clamps the coordinates

---
 include/delfem2/fdm_array2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fdm_array2.h b/include/delfem2/fdm_array2.h
index 44261aa..3f34b8c 100644
--- a/include/delfem2/fdm_array2.h
+++ b/include/delfem2/fdm_array2.h
@@ -77,8 +77,8 @@ double LinearInterpolationOnGrid2(
   double v10 = data(i + 1, j + 0)[idim];
   double v01 = data(i + 0, j + 1)[idim];
   double v11 = data(i + 1, j + 1)[idim];
-  double rx = x - i;
-  double ry = y - j;
+  double rx = x1 - i;
+  double ry = y1 - j;
   return (1 - rx) * (1 - ry) * v00 + rx * (1 - ry) * v10 + (1 - rx) * ry * v01 + rx * ry * v11;
 }
 
-- 
2.43.0


From 3f8e25339246878d87254fa2ceed87eb8bce5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 53/57] fix: PBD_ConstProj_Rigid3D mixes the undeformed z
 coordinate into the deformed position

---
 include/delfem2/pbd_geo3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..1e3e3db 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -133,7 +133,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From 3771a2fe505202b19f90a4fc5ef4cd03bb2bf9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 54/57] fix: SecondMomentOfArea_Polygon leaves the moments
 unset when they are equal

---
 include/delfem2/geo_polygon2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 7fb9f17..9928321 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -225,6 +225,8 @@ void delfem2::SecondMomentOfArea_Polygon(
   if (fabs(Ix - Iy) + fabs(Ixy) < 1.0e-20) {
     pa1 = CVec2<T>(1, 0);
     pa2 = CVec2<T>(0, 1);
+    I1 = Ix;
+    I2 = Iy;
     return;
   }
   double phi = 0.5 * atan2(-2 * Ixy, Ix - Iy);
-- 
2.43.0


From 20d3fbcf781f55977a63719a6f876ae0e366da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 55/57] fix: CBV3_AABB::MaxLength returns the z extent when the
 x and y extents are equally long

---
 include/delfem2/srch_bv3_aabb.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_bv3_aabb.h b/include/delfem2/srch_bv3_aabb.h
index fd39c93..4691c5d 100755
--- a/include/delfem2/srch_bv3_aabb.h
+++ b/include/delfem2/srch_bv3_aabb.h
@@ -53,8 +53,8 @@ class CBV3_AABB {
     REAL x0 = bbmax[0] - bbmin[0];
     REAL y0 = bbmax[1] - bbmin[1];
     REAL z0 = bbmax[2] - bbmin[2];
-    if (x0 > y0 && x0 > z0) { return x0; }
-    else if (y0 > x0 && y0 > z0) { return y0; }
+    if (x0 >= y0 && x0 >= z0) { return x0; }
+    else if (y0 >= x0 && y0 >= z0) { return y0; }
     return z0;
   }
   void SetCenterWidth(REAL cx, REAL cy, REAL cz,
-- 
2.43.0


From ab3a6db958821a727eecbc568343ebfc0ce6140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 56/57] fix: spherical harmonics of degree 9 and order 8 have
 the wrong sign

---
 include/delfem2/specialfuncs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/specialfuncs.cpp b/include/delfem2/specialfuncs.cpp
index be53b69..0ff5063 100644
--- a/include/delfem2/specialfuncs.cpp
+++ b/include/delfem2/specialfuncs.cpp
@@ -211,7 +211,7 @@ DFM2_INLINE void delfem2::makeArray_SphericalHarmonics(
     double v5=-3.0/256*sqrt(2717*invpi)*(85*z4-30*z2+1); //5
     double v6=+1.0/128*sqrt(40755*invpi)*z*(17*z2-3); //6
     double v7=-3.0/512*sqrt(13585*invpi)*(17*z2-1); //7
-    double v8=-3.0/512*sqrt(230945*2*invpi)*z; //7
+    double v8=+3.0/512*sqrt(230945*2*invpi)*z; //7
     double v9=-1.0/512*sqrt(230945*invpi); //7
     Y[81] = v9*i9;
     Y[82] = v8*i8;
-- 
2.43.0


From 2d9605814e8ef3e22305d284aab1672f8c464afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 57/57] fix: finite element headers with a templated merge do
 not compile with gcc as the first header in header-only mode

---
 include/delfem2/fem_helmholtz.h    | 6 ++----
 include/delfem2/fem_mitc3.h        | 6 ++----
 include/delfem2/fem_navierstokes.h | 6 ++----
 include/delfem2/fem_poisson.h      | 6 ++----
 include/delfem2/fem_solidlinear.h  | 6 ++----
 include/delfem2/fem_stokes.h       | 6 ++----
 include/delfem2/femcloth.h         | 6 ++----
 7 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/fem_helmholtz.h b/include/delfem2/fem_helmholtz.h
index a1bcaf4..69acaee 100644
--- a/include/delfem2/fem_helmholtz.h
+++ b/include/delfem2/fem_helmholtz.h
@@ -15,10 +15,8 @@
 #include "delfem2/dfm2_inline.h"
 #include "delfem2/femutil.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-#  include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
diff --git a/include/delfem2/fem_mitc3.h b/include/delfem2/fem_mitc3.h
index 06eec03..33be54e 100644
--- a/include/delfem2/fem_mitc3.h
+++ b/include/delfem2/fem_mitc3.h
@@ -13,10 +13,8 @@
 #include "delfem2/femutil.h"
 #include "delfem2/dfm2_inline.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-#  include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
diff --git a/include/delfem2/fem_navierstokes.h b/include/delfem2/fem_navierstokes.h
index df06f0f..14e78b1 100644
--- a/include/delfem2/fem_navierstokes.h
+++ b/include/delfem2/fem_navierstokes.h
@@ -13,10 +13,8 @@
 #include "delfem2/dfm2_inline.h"
 #include "delfem2/femutil.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-#  include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
diff --git a/include/delfem2/fem_poisson.h b/include/delfem2/fem_poisson.h
index 3f410af..36fa75d 100644
--- a/include/delfem2/fem_poisson.h
+++ b/include/delfem2/fem_poisson.h
@@ -21,10 +21,8 @@
 #include "delfem2/dfm2_inline.h"
 #include "delfem2/femutil.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-#  include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
diff --git a/include/delfem2/fem_solidlinear.h b/include/delfem2/fem_solidlinear.h
index 8ab4886..f06f8c3 100644
--- a/include/delfem2/fem_solidlinear.h
+++ b/include/delfem2/fem_solidlinear.h
@@ -21,10 +21,8 @@
 #include "delfem2/dfm2_inline.h"
 #include "delfem2/femutil.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-#  include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
diff --git a/include/delfem2/fem_stokes.h b/include/delfem2/fem_stokes.h
index 8c21ad6..eb0750e 100644
--- a/include/delfem2/fem_stokes.h
+++ b/include/delfem2/fem_stokes.h
@@ -13,10 +13,8 @@
 #include "delfem2/dfm2_inline.h"
 #include "delfem2/femutil.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-  #include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
diff --git a/include/delfem2/femcloth.h b/include/delfem2/femcloth.h
index ea3e30a..8cf8165 100644
--- a/include/delfem2/femcloth.h
+++ b/include/delfem2/femcloth.h
@@ -15,10 +15,8 @@
 #include "delfem2/fem_quadratic_bending.h"
 #include "delfem2/fem_stvk.h"
 
-#ifdef DFM2_STATIC_LIBRARY
-// Merge use explicitly use the template so for static library we need to include the template itself.
-#  include "delfem2/ls_block_sparse.h"
-#endif
+// Merge is called with explicit template arguments so the template itself has to be visible.
+#include "delfem2/ls_block_sparse.h"
 
 namespace delfem2 {
 
-- 
2.43.0

