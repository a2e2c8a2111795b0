From e64987b062aa0355d3ce5c8890fd239e1cd272ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 001/164] fix: inverse stereographic projection of the light
 and view vectors

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..2a14146 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -375,16 +375,16 @@ void params::to_cartesian(const double* invec, params::input intype,
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
          const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
+         outvec[0] = invec[0] * (1.0 + alphL);
+         outvec[1] = invec[1] * (1.0 + alphL);
          outvec[2] = alphL;
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
          const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
+         outvec[3] = invec[2] * (1.0 + alphV);
+         outvec[4] = invec[3] * (1.0 + alphV);
          outvec[5] = alphV;
 		}
          break;
-- 
2.43.0


From 6b176a40f6335cdef35a29d67a7224a7f8185154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 002/164] fix: unit view and light vectors for the back vector
 parametrizations

---
 sources/core/params.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 2a14146..fabbda5 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -104,10 +104,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
+			outvec[3] = sqrt(1.0 - invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
@@ -206,13 +206,12 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
+            outvec[0] = - invec[0];
+            outvec[1] = - invec[1];
             outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
+            outvec[3] = invec[0];
+            outvec[4] = invec[1];
             outvec[5] = invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
-- 
2.43.0


From 903479266a41c0117b570c171f8b6acab9c7a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 003/164] fix: projected azimuth parametrizations turn the same
 way in both directions

---
 sources/core/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index fabbda5..3a76d0f 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -592,7 +592,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double theta_l = acos(invec[5]);
 			const double theta_v = acos(invec[2]);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
+			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
 			outvec[2] = theta_v * sin(dphi);
@@ -608,7 +608,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
 
 			// Sine of the \Delta_{\phi} angle
-			const double sin_dp = sin(atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]));
+			const double sin_dp = sin(atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]));
 
 			if(sin_vl != 0.0 && sin_l != 0.0)
 			{
@@ -638,7 +638,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
 			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(vky/norm, vkx/norm);
+			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From 791241441375ae8e2e1e15fb3fa58973cf47a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 004/164] fix: retro parametrization keeps the side of the
 normal the view is on

---
 sources/core/params.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 3a76d0f..071fb70 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -270,20 +270,9 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Compute the cosine of the outgoing vector using the
 			// spherical law of cosines
 			const double cos_v = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
-			const double sin_v = sqrt(1.0 - std::min(cos_v*cos_v, 1.0));
 
-			if(sin_v != 0.0)
-			{
-				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
-
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
-				outvec[1] = sin_v * sin_dphi;
-			}
-			else
-			{
-				outvec[0] = 0.0;
-				outvec[1] = 0.0;
-			}
+			outvec[0] = sin_l*cos_vl - cos_phi*cos_l*sin_vl;
+			outvec[1] = sin_vl*sin_phi;
 			outvec[2] = cos_v;
 			outvec[3] = sin(invec[0]);
 			outvec[4] = 0.0;
-- 
2.43.0


From d31cdcc03f8e5ebd9cefc02cad15c314702b99fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 005/164] fix: back vector is light minus view when leaving the
 Stark and Neumann parametrizations

---
 sources/core/params.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 071fb70..4f192da 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -293,7 +293,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -319,10 +319,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From 3b4fa7c3a8da5a2eb7c58c8f26a8701cc56b1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 006/164] fix: name and dimension of SCHLICK_VK and
 RUSIN_TH_PH_TD

---
 sources/core/params.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 4f192da..2e65143 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -42,10 +42,11 @@ std::map<params::input, const param_info> create_map()
 	_map.insert(std::make_pair<params::input, const param_info>(params::NEUMANN_2D, param_info("NEUMANN_2D", 2, "Neumann parametrization H, B but without third component.")));
 
 	/* 3D Params */
+	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_PH_TD, param_info("RUSIN_TH_PH_TD", 3, "Half angle parametrization without the difference azimuth")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
-	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VH", 3, "Vector representation of the Back angle only")));
+	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VK", 3, "Vector representation of the Back angle only")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TL_TV_PROJ_DPHI, param_info("ISOTROPIC_TL_TV_PROJ_DPHI", 3, "Isoptropic projected phi parametrization.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_TL_TK_PROJ_DPHI, param_info("SCHLICK_TL_TK_PROJ_DPHI", 3, "Isoptropic projected phi parametrization centered around the back vector.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RETRO_TL_TVL_PROJ_DPHI, param_info("RETRO_TL_TVL_PROJ_DPHI", 3, "Isoptropic retro projected phi parametrization.")));
-- 
2.43.0


From 0cf67985a5a0865db5821107ea24a241c6d96955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 007/164] fix: no NaN from rounding at normal, grazing and
 coincident directions

---
 sources/core/params.cpp | 101 +++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 42 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 2e65143..de1a189 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -91,6 +91,18 @@ static std::map<params::output, std::string> create_output_map()
 static const std::map<params::output, std::string> output_map =
 		create_output_map();
 
+// Arc cosine and square root of values that rounding may have pushed out of
+// their domain.
+static double safe_acos(double x)
+{
+    return acos(clamp(x, -1.0, 1.0));
+}
+
+static double safe_sqrt(double x)
+{
+    return sqrt(std::max(x, 0.0));
+}
+
 void params::to_cartesian(const double* invec, params::input intype,
 		double* outvec)
 {
@@ -102,18 +114,18 @@ void params::to_cartesian(const double* invec, params::input intype,
 	{
 		// 1D Parametrizations
 		case params::COS_TH:
-			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
+			half_to_cartesian(safe_acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
+			outvec[0] = - safe_sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = sqrt(1.0 - invec[0]*invec[0]);
+			outvec[3] = safe_sqrt(1.0 - invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
 		case params::COS_TLV:
-			outvec[0] = sqrt(1.0 - invec[0]*invec[0]);
+			outvec[0] = safe_sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
 			outvec[3] = 0.0;
@@ -121,7 +133,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			outvec[5] = 1.0;
 			break;
 		case params::COS_TLR:
-			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
+			outvec[0] = - safe_sqrt(1.0 - invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
 			outvec[3] = 0.0;
@@ -131,7 +143,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 			// 2D Parametrizations
 		case params::COS_TH_TD:
-			half_to_cartesian(acos(invec[0]), 0.0, acos(invec[1]), 0.0, outvec);
+			half_to_cartesian(safe_acos(invec[0]), 0.0, safe_acos(invec[1]), 0.0, outvec);
 			break;
 		case params::RUSIN_TH_TD:
          half_to_cartesian(invec[0], 0.0, invec[1], 0.5*M_PI, outvec);
@@ -163,7 +175,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double Hx = invec[0];
 			const double Hy = 0;
          const double sum = Hx*Hx + invec[1]*invec[1];
-			const double Hz = (sum <= 1.0) ? sqrt(1.0 - std::min(sum, 1.0)) : -1.0;
+			const double Hz = (sum <= 1.0 + 1.0E-10) ? safe_sqrt(1.0 - sum) : -1.0;
 
 			// Ensuring that <H,B> = 0.
 			const double Bx = 0.0;
@@ -183,10 +195,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 		{
 			outvec[0] =   invec[0];
 			outvec[1] =   invec[1];
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
+			outvec[2] =   safe_sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
 			outvec[3] =   invec[0];
 			outvec[4] = - invec[1];
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[5] =   safe_sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
 		}
 		break;
 
@@ -205,7 +217,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			classical_to_cartesian(invec[0], 0.0, invec[1], invec[2], outvec);
 			break;
 		case params::RUSIN_VH:
-            half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
+            half_to_cartesian(safe_acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
       case params::SCHLICK_VK:
             outvec[0] = - invec[0];
@@ -285,7 +297,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Constructing the Half vector
 			const double Hx = invec[0];
 			const double Hy = 0;
-			const double Hz = sqrt(1.0 - invec[0]*invec[0] - invec[1]*invec[1]);
+			const double Hz = safe_sqrt(1.0 - invec[0]*invec[0] - invec[1]*invec[1]);
 
 			// Constructing the Back vector using azimuth and elevation angles
 			const double cosPhi = cos(invec[2]);
@@ -294,7 +306,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
+			const double Theta  = (Hz > 0.0) ? atan2(Hz, -invec[0]*cosPhi) : 0.5*M_PI;
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -327,8 +339,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-			if(outvec[0]*outvec[0]+outvec[1]*outvec[1] > 1.0 ||
-				outvec[3]*outvec[3]+outvec[4]*outvec[4] > 1.0) {
+			if(outvec[0]*outvec[0]+outvec[1]*outvec[1] > 1.0 + 1.0E-10 ||
+				outvec[3]*outvec[3]+outvec[4]*outvec[4] > 1.0 + 1.0E-10) {
 				outvec[0] =  0.0;
 				outvec[1] =  0.0;
 				outvec[2] = -1.0;
@@ -339,8 +351,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 			}
 
 			// Project the vectorx on the hemisphere.
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[2] =   safe_sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
+			outvec[5] =   safe_sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
 		}
 			break;
 
@@ -409,6 +421,10 @@ static void half_vector(Real const *invec, Vector &half)
         half /= sqrt(sqnorm);
     }
 
+    // Rounding may leave grazing directions slightly below the horizon.
+    if (half[2] < 0. && half[2] > -1e-10)
+        half[2] = 0.;
+
     assert(half[2] <= 1.);
     assert(half[2] >= 0.);
 }
@@ -458,7 +474,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double Kx = invec[0]-invec[3];
 			const double Ky = invec[1]-invec[4];
 			const double Kz = invec[2]+invec[5];
-			outvec[0] = (invec[2] + invec[5]) / sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			const double norm = sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			outvec[0] = (norm > 1.0E-10) ? Kz / norm : 1.0;
 		}
 			break;
 		case params::COS_TLV:
@@ -474,12 +491,12 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[1] = half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2];
 			break;
 		case params::RUSIN_TH_TD:
-			outvec[0] = acos(half[2]);
-			outvec[1] = acos(clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0));
+			outvec[0] = safe_acos(half[2]);
+			outvec[1] = safe_acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
 			break;
 		case ISOTROPIC_TV_PROJ_DPHI:
 		{
-			const double theta = acos(invec[2]);
+			const double theta = safe_acos(invec[2]);
 			const double dphi  = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta * cos(dphi);
 			outvec[1] = theta * sin(dphi);
@@ -515,12 +532,12 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			// 3D Parametrization
 		case params::RUSIN_TH_PH_TD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
-			outvec[2] = acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
+			outvec[2] = safe_acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
 			break;
 		case params::RUSIN_TH_TD_PD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 
 			// Compute the diff vector
 			diff[0] = invec[0];
@@ -538,7 +555,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
       //     view[2] = invec[2];
       //     outvec[1] = acos(clamp(half.dot(view),0.,1.));
       // }
-      outvec[1] = acos(diff[2]);
+      outvec[1] = safe_acos(diff[2]);
 
       // By convention, when DIFF is alongside z⃗, return φd = 0.
       if (alongside_z(diff))
@@ -548,8 +565,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			break;
 		case params::ISOTROPIC_TV_TL_DPHI:
-			outvec[0] = acos(invec[2]);
-			outvec[1] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[2]);
+			outvec[1] = safe_acos(invec[5]);
 			outvec[2] = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
 			break;
 		case params::RUSIN_VH:
@@ -580,8 +597,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-			const double theta_l = acos(invec[5]);
-			const double theta_v = acos(invec[2]);
+			const double theta_l = safe_acos(invec[5]);
+			const double theta_v = safe_acos(invec[2]);
 			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
@@ -593,9 +610,9 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double cos_v  = invec[2];
 			const double cos_l  = invec[5];
 			const double cos_vl = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
-			const double sin_l  = sqrt(1.0 - cos_l * cos_l);
-			const double sin_v  = sqrt(1.0 - cos_v * cos_v);
-			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
+			const double sin_l  = safe_sqrt(1.0 - cos_l * cos_l);
+			const double sin_v  = safe_sqrt(1.0 - cos_v * cos_v);
+			const double sin_vl = safe_sqrt(1.0 - cos_vl* cos_vl);
 
 			// Sine of the \Delta_{\phi} angle
 			const double sin_dp = sin(atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]));
@@ -607,16 +624,16 @@ void params::from_cartesian(const double* invec, params::input outtype,
 				const double cos_phi = (cos_v - cos_l*cos_vl) / (sin_l * sin_vl);
 				const double sin_phi = (sin_dp * sin_v) / sin_vl;
 
-				const double theta = acos(cos_vl);
+				const double theta = safe_acos(cos_vl);
 
-				outvec[0] = acos(cos_l);
+				outvec[0] = safe_acos(cos_l);
 				outvec[1] = theta * cos_phi;
 				outvec[2] = theta * sin_phi;
 			}
 			else
 			{
-				outvec[0] = acos(cos_l);
-				outvec[1] = acos(cos_v) - acos(cos_l);
+				outvec[0] = safe_acos(cos_l);
+				outvec[1] = safe_acos(cos_v) - safe_acos(cos_l);
 				outvec[2] = 0.0;
 			}
 		}
@@ -627,9 +644,9 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
-			outvec[0] = acos(invec[5]);
+			const double theta_k = (norm > 1.0E-10) ? safe_acos(vkz / norm) : 0.0;
+			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
+			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
 		}
@@ -665,7 +682,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			// 4D Parametrization
 		case params::RUSIN_TH_PH_TD_PD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
 
 			// Compute the diff vector
@@ -682,15 +699,15 @@ void params::from_cartesian(const double* invec, params::input outtype,
       }
       else
       {
-          outvec[2] = acos(diff[2]);
+          outvec[2] = safe_acos(diff[2]);
           outvec[3] = atan2(diff[1], diff[0]);
       }
 			break;
 
 		case params::SPHERICAL_TL_PL_TV_PV:
-			outvec[0] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = atan2(invec[4], invec[3]);
-			outvec[2] = acos(invec[2]);
+			outvec[2] = safe_acos(invec[2]);
 			outvec[3] = atan2(invec[1], invec[0]);
 #ifdef DEBUG
 			std::cout << invec[2] << " - acos -> " << outvec[0] << std::endl;
-- 
2.43.0


From 6fec9edcd6220b4154f40ab4d7576688a97031b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 008/164] fix: dimension of the cosine weighted output
 parametrization

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..10c2997 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -298,6 +298,7 @@ class params
             {
                 // 1D Parametrizations
                 case params::INV_STERADIAN:
+                case params::INV_STERADIAN_COSINE_FACTOR:
                 case params::ENERGY:
                     return 1;
                     break;
-- 
2.43.0


From b71163e6c730cf4bd210e2c82786a89fa2857772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 009/164] fix: average of the channels starts from zero

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index 10c2997..734ccf7 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From ca0068e3551851778c4971e9a427215f4797e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 010/164] fix: empty and long elements of a vector argument

---
 sources/core/args.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..35caa57 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -292,14 +292,12 @@ class arguments
 				if(str[0] == '[' && str[str.size()-1] == ']') // Is an array of type [a, b, c]
 				{
 					std::stringstream stream(str.substr(1, str.size()-2));
-					char s[256];
-					while(stream.good())
+					std::string s;
+					while(std::getline(stream, s, ','))
 					{
 						// Extract the value v from the stream s
-						stream.get(s, 256, ',');
-						stream.ignore(1);
 						std::stringstream sstream(s);
-						T v;
+						T v = T();
 						sstream >> v;
 
 						// Push the value at the end of the vector
-- 
2.43.0


From 03433a4698f5f0b52b3cc284d208c9e680b35e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 011/164] fix: scalar given for a vector argument keeps double
 precision

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 35caa57..44771fc 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -266,7 +266,7 @@ class arguments
 				}
 			}
 
-			float val = get_float(key, default_value);
+			double val = is_defined(key) ? atof(_map.find(key)->second.c_str()) : default_value;
 			for(int i=0; i<size; ++i)
 			{
 				res[i] = val;
-- 
2.43.0


From 62c781babe7495135636086e0b59c2a8ad878c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 012/164] fix: missing or invalid DIM in a text data file
 throws

---
 sources/core/data_storage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..bbcf148 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -17,6 +17,7 @@
 #include <limits>
 #include <iomanip>
 #include <cassert>
+#include <stdexcept>
 
 #ifdef __GLIBC__
 # include <endian.h>
@@ -164,13 +165,16 @@ alta::data* alta::load_data_from_text(std::istream& input,
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-    throw;
+    throw std::runtime_error("undefined dimensions in data file header");
   }
 
   params::input  in_param  = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   params::output out_param = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
+  if(dim.first < 1 || dim.second < 1) {
+    throw std::runtime_error("invalid dimensions in data file header");
+  }
   size_t row_count = dim.first + 3 * dim.second;
 
   min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
-- 
2.43.0


From 745452a0f3175e4b79fba2c28a2cedfdaa0134da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 013/164] fix: blank and incomplete lines of a text data file
 are not read as zeros

---
 sources/core/data_storage.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index bbcf148..f150397 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -202,7 +202,8 @@ alta::data* alta::load_data_from_text(std::istream& input,
     std::stringstream linestream(line) ;
 
     // Discard comments and empty lines.
-    if(line.empty() || linestream.peek() == '#')
+    if(line.find_first_not_of(" \t\r") == std::string::npos
+       || linestream.peek() == '#')
     {
       continue ;
     }
@@ -214,7 +215,10 @@ alta::data* alta::load_data_from_text(std::istream& input,
       for(int i=0; i < dim.first + dim.second; ++i)
       {
           double item;
-          linestream >> item;
+          if(!(linestream >> item))
+          {
+              throw std::runtime_error("unreadable line in data file: " + line);
+          }
           content.push_back(item);
       }
 
@@ -227,6 +231,10 @@ alta::data* alta::load_data_from_text(std::istream& input,
       // Read the confidence interval data if available.
       read_confidence_interval(linestream, v, kind,
                                dim.first, dim.second, args);
+      if(linestream.fail())
+      {
+          throw std::runtime_error("unreadable line in data file: " + line);
+      }
 
       // Check if we need to filter out what we just read according to ARGS.
       // TODO: Move filtering to a post-parsing operation on 'data'.
-- 
2.43.0


From 460b0cfd711ae40c23a583d7e53ee02487988139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 014/164] fix: the intervals of all the output dimensions are
 read from text data

---
 sources/core/data_storage.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index f150397..0444ffd 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -89,7 +89,7 @@ static int number_from_ci_kind(vertical_segment::ci_kind kind)
 // Read a confidence interval on the output parameters from INPUT into V.
 static void read_confidence_interval(std::istream& input,
                                      vecref v,
-                                     vertical_segment::ci_kind kind,
+                                     const std::vector<vertical_segment::ci_kind>& kinds,
                                      unsigned int dimX,
                                      unsigned int dimY,
                                      const alta::arguments& args)
@@ -100,7 +100,7 @@ static void read_confidence_interval(std::istream& input,
     {
         double min_dt = 0.0, max_dt = 0.0;
 
-        if(i == 0 && kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL)
+        if(kinds[i] == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL)
         {
             input >> min_dt ;
             input >> max_dt ;
@@ -108,7 +108,7 @@ static void read_confidence_interval(std::istream& input,
             //max_dt = max_dt-v(dimX + i);
             min_dt = -min_dt;
         }
-        else if(i == 0 && kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
+        else if(kinds[i] == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
         {
             double dt ;
             input >> dt ;
@@ -189,7 +189,14 @@ alta::data* alta::load_data_from_text(std::istream& input,
   std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
 
-  auto kind = ci_kind_from_number(header.get_int("VS"));
+  // One confidence interval kind per output dimension.
+  std::vector<vertical_segment::ci_kind> kinds;
+  std::stringstream vs_stream(header["VS"]);
+  for(int i = 0; i < dim.second; ++i)
+  {
+      int vs_value;
+      kinds.push_back(ci_kind_from_number((vs_stream >> vs_value) ? vs_value : 0));
+  }
   std::vector<double> content;
 
   std::cout << "<<INFO>> Starting to load file ... " << std::endl;
@@ -229,7 +236,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       Map<VectorXd> v(&content[start], row_count);
 
       // Read the confidence interval data if available.
-      read_confidence_interval(linestream, v, kind,
+      read_confidence_interval(linestream, v, kinds,
                                dim.first, dim.second, args);
       if(linestream.fail())
       {
-- 
2.43.0


From a797527a4fa740a236ad383a053d123576d55746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 015/164] fix: lower bound of --dt-max takes the larger size

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 0444ffd..f10b77e 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -130,7 +130,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
             v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
         }
         else
-- 
2.43.0


From 0fe0a9191ac78fb8c564c0339ac31a7ab539bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 016/164] fix: the header of a binary file ends at BEGIN_STREAM

---
 sources/core/args.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 44771fc..3987837 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -502,6 +502,12 @@ class arguments
 
 								getline(linestream, data, '\r');
 								args.update(key, data) ;
+
+								// What follows is raw data, which may well
+								// start with a hash sign.
+								if (key == "BEGIN_STREAM") {
+									break;
+								}
 							}
 						}
 					}
-- 
2.43.0


From 63103a93b9f5c7f9f5fed15f7aa318c1f2319f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 017/164] fix: incomplete or unsupported binary data files are
 rejected

---
 sources/core/data_storage.cpp | 37 ++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index f10b77e..b12b3a6 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -372,25 +372,33 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     using namespace alta;
 
     // FIXME: For now we make a number of assumptions.
-    assert(header["FORMAT"] == "binary");
-    assert(header.get_int("VERSION") == 0);
-    assert(header["PRECISION"] == "ieee754-double");
+    if(header["FORMAT"] != "binary"
+       || header.get_int("VERSION") != 0
+       || header["PRECISION"] != "ieee754-double"
 #if __BYTE_ORDER == __LITTLE_ENDIAN
-    assert(header["ENDIAN"] == "little");
+       || header["ENDIAN"] != "little"
 #else
-    assert(header["ENDIAN"] == "big");
+       || header["ENDIAN"] != "big"
 #endif
+       || !header.is_defined("DIM"))
+    {
+        throw std::runtime_error("unsupported or incomplete header in binary data file");
+    }
 
     std::pair<int, int> dim = header.get_pair<int>("DIM");
-    assert(dim.first > 0 && dim.second > 0);
+    if(dim.first < 1 || dim.second < 1)
+    {
+        throw std::runtime_error("invalid dimensions in binary data file");
+    }
 
     auto kind = ci_kind_from_number(header.get_int("VS"));
 
     in.exceptions(std::ios_base::failbit);
 
     int sample_count = header.get_int("SAMPLE_COUNT");
-      if(sample_count <= 0) {
+      if(sample_count < 0 || !header.is_defined("SAMPLE_COUNT")) {
          std::cerr << "<<ERROR>> Uncorrect or not samples count in the header, please check \'SAMPLE_COUNT\'" << std::endl;
+         throw std::runtime_error("invalid sample count in binary data file");
       }
 
       size_t ci_rows =
@@ -401,6 +409,7 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
       size_t rows = dim.first + dim.second + ci_rows * dim.second;
       size_t element_count = sample_count * rows;
       double *content = new double[element_count];
+      std::shared_ptr<double> storage(content, delete_array);
       size_t byte_count = element_count * sizeof *content;
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
@@ -411,12 +420,22 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
           in.read((char *) content + total, byte_count - total);
       }
 
+      // Older files have no stream markers.
+      if(header.is_defined("BEGIN_STREAM"))
+      {
+          std::string end;
+          in >> end;
+          if(end != "#END_STREAM")
+          {
+              throw std::runtime_error("missing end of stream in binary data file");
+          }
+      }
+
     parameters param(dim.first, dim.second,
                      params::parse_input(header["PARAM_IN"]),
                      params::parse_output(header["PARAM_OUT"]));
 
     return new alta::vertical_segment(param, sample_count,
-                                      std::shared_ptr<double>(content,
-                                                              delete_array),
+                                      storage,
                                       kind);
 }
-- 
2.43.0


From 326e21ccaa0d44beee3a2af5953805e61829f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 018/164] fix: upper bound of a symmetric confidence interval

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From 5a204e463393406783fdb0fd1bc05b41503d084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 019/164] fix: setting a sample of the wrong size throws an
 exception

---
 sources/core/vertical_segment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 6a395a0..085586d 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <cassert>
 #include <cstring>
+#include <stdexcept>
 
 using namespace alta;
 using namespace Eigen;
@@ -158,7 +159,7 @@ void vertical_segment::set(int i, const vec& x)
        row.head(x.size()) = x;
    } else {
       std::cerr << "<<ERROR>> Passing an incorrect element to vertical_segment::set" << std::endl;
-      throw;
+      throw std::invalid_argument("vertical_segment::set");
    }
 }
 
-- 
2.43.0


From 3d71228833c7fe95c29717d1e3075906420b93d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 020/164] fix: default tolerance of data::equals

---
 sources/core/data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From 8c4f8f240cc5a0c5416dfa7fc4314846b8ad0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 021/164] fix: data::equals does not take NaN for any value

---
 sources/core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..9ca6ae2 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -50,7 +50,7 @@ bool data::equals(const data& data, double epsilon)
         for (int j = 0; j < self.size(); j++)
         {
             double diff = std::abs(self[j] - other[j]);
-            if (diff > epsilon)
+            if (!(diff <= epsilon) && self[j] != other[j])
                 return false;
         }
     }
-- 
2.43.0


From 4d28efee78db043a1411246458b996b914d8d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 022/164] fix: data::save throws when the file could not be
 written

---
 sources/core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 9ca6ae2..b22d1b0 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -21,7 +21,7 @@ void data::save(const std::string& filename) const
 
     file.exceptions(std::ios_base::failbit);
     file.open(filename.c_str(), std::ios_base::trunc);
-    file.exceptions(std::ios_base::goodbit);
+    file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
         alta::save_data_as_text(file, *this);
 
-- 
2.43.0


From 2c6fca0b42bd4637d834a6cc68738c92dd7b636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 023/164] fix: binary data cut before its payload or missing a
 byte is rejected

---
 sources/core/data_storage.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index b12b3a6..53770e8 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -413,19 +413,21 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
       size_t byte_count = element_count * sizeof *content;
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
-      for (std::streamsize total = 0;
-           total < byte_count && !in.eof();
-           total += in.gcount())
+      std::streamsize total = 0;
+      for (; total < byte_count && !in.eof(); total += in.gcount())
       {
           in.read((char *) content + total, byte_count - total);
       }
+      if (total < byte_count)
+      {
+          throw std::runtime_error("not enough samples in binary data file");
+      }
 
       // Older files have no stream markers.
       if(header.is_defined("BEGIN_STREAM"))
       {
           std::string end;
-          in >> end;
-          if(end != "#END_STREAM")
+          if(in.get() != '\n' || !std::getline(in, end) || end != "#END_STREAM")
           {
               throw std::runtime_error("missing end of stream in binary data file");
           }
-- 
2.43.0


From e3d7da7a96c6fcd2a248b42e642cd26557e972cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 024/164] fix: numerator, denominator and new coefficients of a
 rational function start from zero

---
 sources/core/rational_function.cpp | 4 ++--
 sources/core/rational_function.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..bc938b5 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -263,7 +263,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -275,7 +275,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
diff --git a/sources/core/rational_function.h b/sources/core/rational_function.h
index a45fd12..521e9a4 100644
--- a/sources/core/rational_function.h
+++ b/sources/core/rational_function.h
@@ -150,7 +150,7 @@ class rational_function_1d : public function
 		// for each dimension.
 		struct coeff
 		{
-			coeff() {}
+			coeff() : a(0.0) {}
 			coeff(double a, std::vector<int> deg) :
 				a(a), deg(deg) { }
 
-- 
2.43.0


From cb82b23f42d8cf491fa01e219021720a2374dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 025/164] fix: coefficients added by an update get their
 degrees

---
 sources/core/rational_function.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index bc938b5..13730df 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -183,12 +183,7 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int nq = in_b.size();
 
 	// Resize the coefficient vector if they do not match
-	if(np != _p_coeffs.size()) {
-		_p_coeffs.resize(np);
-	}
-	if(nq != _q_coeffs.size()) {
-		_q_coeffs.resize(nq);
-	}
+	resize(np, nq);
 
 #define NORMALIZE
 
-- 
2.43.0


From d4a77df80b47c2e7aa6b04ac5dd1d13da6147858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 026/164] fix: cosine rational function keeps its own class
 when the Legendre plugin is loaded too

---
 .../rational_function.cpp                     | 14 +++++------
 .../rational_function.h                       | 24 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/sources/plugins/rational_function_cosine/rational_function.cpp b/sources/plugins/rational_function_cosine/rational_function.cpp
index 797091a..c0771fc 100644
--- a/sources/plugins/rational_function_cosine/rational_function.cpp
+++ b/sources/plugins/rational_function_cosine/rational_function.cpp
@@ -18,16 +18,16 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 {
-    return new rational_function_legendre(params);
+    return new rational_function_cosine(params);
 }
 
-rational_function_legendre_1d::rational_function_legendre_1d(const parameters& params,
+rational_function_cosine_1d::rational_function_cosine_1d(const parameters& params,
                                                              int np, int nq)
     : rational_function_1d(params, np, nq)
 {
 }
 
-double rational_function_legendre_1d::legendre(double x, int i) const
+double rational_function_cosine_1d::legendre(double x, int i) const
 {
 	if(i == 0)
 	{
@@ -68,7 +68,7 @@ double rational_function_legendre_1d::legendre(double x, int i) const
 }
 
 // Get the p_i and q_j function
-double rational_function_legendre_1d::p(const vec& x, int i) const
+double rational_function_cosine_1d::p(const vec& x, int i) const
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -90,7 +90,7 @@ double rational_function_legendre_1d::p(const vec& x, int i) const
 
 	return res ;
 }
-double rational_function_legendre_1d::q(const vec& x, int i) const 
+double rational_function_cosine_1d::q(const vec& x, int i) const 
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -102,12 +102,12 @@ double rational_function_legendre_1d::q(const vec& x, int i) const
 	return res ;
 }
 
-rational_function_legendre::rational_function_legendre(const parameters& params)
+rational_function_cosine::rational_function_cosine(const parameters& params)
     : rational_function(params)
 {
 }
 
-rational_function_legendre::~rational_function_legendre()
+rational_function_cosine::~rational_function_cosine()
 {
 }
 
diff --git a/sources/plugins/rational_function_cosine/rational_function.h b/sources/plugins/rational_function_cosine/rational_function.h
index 4a37b12..d58740b 100644
--- a/sources/plugins/rational_function_cosine/rational_function.h
+++ b/sources/plugins/rational_function_cosine/rational_function.h
@@ -24,13 +24,13 @@
 
 using namespace alta;
 
-class rational_function_legendre_1d : public rational_function_1d
+class rational_function_cosine_1d : public rational_function_1d
 {
 	public: // methods
 
-    rational_function_legendre_1d(const parameters& params,
+    rational_function_cosine_1d(const parameters& params,
                                   int np = 0, int nq = 0);
-		virtual ~rational_function_legendre_1d() {}
+		virtual ~rational_function_cosine_1d() {}
 
 		// Get the p_i and q_j function
 		virtual double p(const vec& x, int i) const ;
@@ -42,7 +42,7 @@ class rational_function_legendre_1d : public rational_function_1d
 		double legendre(double x, int i) const;
 
   private:
-		rational_function_legendre_1d() ;
+		rational_function_cosine_1d() ;
 } ;
 
 /*! \ingroup functions
@@ -59,13 +59,13 @@ class rational_function_legendre_1d : public rational_function_1d
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class rational_function_legendre : public rational_function
+class rational_function_cosine : public rational_function
 {
 	public: // methods
 
-    rational_function_legendre(const parameters& params);
+    rational_function_cosine(const parameters& params);
 
-		virtual ~rational_function_legendre() ;
+		virtual ~rational_function_cosine() ;
 
 		//! Get the 1D function associated with color channel i. If no one exist, 
 		//! this function allocates a new element. If i > nY, it returns NULL.
@@ -76,7 +76,7 @@ class rational_function_legendre : public rational_function
 			{
 				if(rs[i] == NULL)
 				{
-          rs[i] = new rational_function_legendre_1d(_parameters, np, nq);
+          rs[i] = new rational_function_cosine_1d(_parameters, np, nq);
 
 					vec _min = min();
 					vec _max = max();
@@ -104,22 +104,22 @@ class rational_function_legendre : public rational_function
 
 		//! Update the y-1D function for the ith dimension.
 		//! \note It will test if the 1D function provided is of the dynamic type
-		//! \name rational_function_legendre_1d
+		//! \name rational_function_cosine_1d
 		virtual void update(int i, rational_function_1d* r)
 		{
-			if(dynamic_cast<rational_function_legendre_1d*>(r) != NULL)
+			if(dynamic_cast<rational_function_cosine_1d*>(r) != NULL)
 			{
 				rational_function::update(i, r);
 			}
 			else
 			{
 #ifdef DEBUG
-				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_legendre\"" << std::endl;
+				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_cosine\"" << std::endl;
 #endif
 			}
 		}
 
 private:
-		rational_function_legendre() {};
+		rational_function_cosine() {};
 } ;
 
-- 
2.43.0


From 6b84d7091fe5062bc8d9a00f70754252f69dc6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 027/164] fix: retro Beckmann keeps its own class when the
 Beckmann plugin is loaded too

---
 .../function.cpp                              | 26 +++++++++----------
 .../function.h                                |  6 ++---
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..bc6631f 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -24,10 +24,10 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 {
-    return new beckmann_function(params);
+    return new retrobeckmann_function(params);
 }
 
-beckmann_function::beckmann_function(const alta::parameters& params)
+retrobeckmann_function::retrobeckmann_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN)),
       _use_back_param(true)
 {
@@ -38,11 +38,11 @@ beckmann_function::beckmann_function(const alta::parameters& params)
 
 
 // Overload the function operator
-vec beckmann_function::operator()(const vec& x) const 
+vec retrobeckmann_function::operator()(const vec& x) const 
 {
 	return value(x);
 }
-vec beckmann_function::value(const vec& x) const 
+vec retrobeckmann_function::value(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -78,13 +78,13 @@ vec beckmann_function::value(const vec& x) const
 }
 
 //! Number of parameters to this non-linear function
-int beckmann_function::nbParameters() const 
+int retrobeckmann_function::nbParameters() const 
 {
 	return 2*_parameters.dimY();
 }
 
 //! Get the vector of parameters for the function
-vec beckmann_function::parameters() const 
+vec retrobeckmann_function::parameters() const 
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -96,7 +96,7 @@ vec beckmann_function::parameters() const
 }
 
 //! \brief get the min values for the parameters
-vec beckmann_function::getParametersMin() const
+vec retrobeckmann_function::getParametersMin() const
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -109,7 +109,7 @@ vec beckmann_function::getParametersMin() const
 }
 
 //! Update the vector of parameters for the function
-void beckmann_function::setParameters(const vec& p) 
+void retrobeckmann_function::setParameters(const vec& p) 
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -121,7 +121,7 @@ void beckmann_function::setParameters(const vec& p)
 //! Obtain the derivatives of the function with respect to the 
 //! parameters
 //! \todo finish. 
-vec beckmann_function::parametersJacobian(const vec& x) const 
+vec retrobeckmann_function::parametersJacobian(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -165,7 +165,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
-void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
+void retrobeckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -184,7 +184,7 @@ void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 }
 
 //! Load function specific files
-bool beckmann_function::load(std::istream& in)
+bool retrobeckmann_function::load(std::istream& in)
 {
 	// Parse line until the next comment
 	while(in.peek() != '#')
@@ -246,7 +246,7 @@ bool beckmann_function::load(std::istream& in)
 }
 
 
-void beckmann_function::save_call(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_call(std::ostream& out, const arguments& args) const
 {
 	bool is_alta   = !args.is_defined("export") || args["export"] == "alta";
 
@@ -284,7 +284,7 @@ void beckmann_function::save_call(std::ostream& out, const arguments& args) cons
 	}
 }
 
-void beckmann_function::save_body(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_body(std::ostream& out, const arguments& args) const
 {
     bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
 
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.h b/sources/plugins/nonlinear_function_retrobeckmann/function.h
index 0640881..768bcca 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.h
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.h
@@ -36,12 +36,12 @@ using namespace alta;
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class beckmann_function : public nonlinear_function
+class retrobeckmann_function : public nonlinear_function
 {
 
 	public: // methods
 
-    beckmann_function(const alta::parameters& params);
+    retrobeckmann_function(const alta::parameters& params);
 
 		// Overload the function operator
 		virtual vec operator()(const vec& x) const ;
@@ -80,6 +80,6 @@ class beckmann_function : public nonlinear_function
 		vec _ks, _a; // Lobes data
 		bool _use_back_param;
 
-    beckmann_function() {};
+    retrobeckmann_function() {};
 } ;
 
-- 
2.43.0


From 428fe576719e6a0adee835596d01d1cc2077efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 028/164] fix: derivative of the Beckmann lobes with respect to
 the roughness

---
 sources/plugins/nonlinear_function_beckmann/function.cpp      | 2 +-
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..581bda3 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/fac) * (2.0/a) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index bc6631f..6d21297 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec retrobeckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/fac) * (2.0/a) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From 8fc4a5340b5fae56fba5ccb0665cf74befe06ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 029/164] fix: derivatives of the Ward lobe with respect to its
 widths

---
 sources/plugins/nonlinear_function_ward/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..6dba7f4 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * ((2.0*hx_ax*hx_ax) / (h[2]*h[2]) - 1.0) * gauss;
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * ((2.0*hy_ay*hy_ay) / (h[2]*h[2]) - 1.0) * gauss;
 			 }
 			 else
 			 {
-- 
2.43.0


From e62e7783953b634520cd92bfc964c257b5ae58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 030/164] fix: derivatives of the ABC lobe are zero where the
 lobe is

---
 sources/plugins/nonlinear_function_abc/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..81d5be4 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,9 +107,9 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 const double hn = 1.0 - x[0];
+			 if(i == j && hn >= 0.0 && hn <= 1.0)
 			 {
-				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-- 
2.43.0


From 7e5f670767c588bca7a486145aae5de9a4c9a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 031/164] fix: derivatives of the retro Blinn lobe are zero
 where the lobe is

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..05d4d3e 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -138,7 +138,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				// df / dk_s
-				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
+				jac[i*nbParameters() + j*2+0] = (x[0] >= 0.0) ? std::pow(x[0], _N[j]) : 0.0;
 
 				// df / dN
                 if(x[0] <= 0.0)
-- 
2.43.0


From bafe89b753ed3b49245c076e076c0128268594ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 032/164] fix: normalized Schlick Fresnel allocates its
 parameters

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..f04da10 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(params.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From ed2d13f0b993afa32c2986cb8ccbdf2e772aea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 033/164] fix: derivative of the normalized Schlick Fresnel

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index f04da10..6a7adfd 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -191,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From ff641d717fd071ceed4c9a90c6e9450ec2699ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 034/164] fix: Smith shadowing and its derivative for a view or
 light along the normal

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..b1629b6 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -147,7 +147,8 @@ vec smith::value(const vec& x) const
 {
 	vec res(_parameters.dimY());
     //RP: The Step functions are missing ???? !!!
-	if(x[2] == 1.0)
+	// Light along the normal
+	if(x[3] == 0.0 && x[4] == 0.0)
 	{
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
@@ -229,12 +230,12 @@ vec smith::parametersJacobian(const vec& x) const
     for(int i=0; i<nY; ++i)
         for(int j=0; j<nY; ++j)
         {
-			  if(i == j && x[2] < 1.0) 
+			  if(i == j && (x[3] != 0.0 || x[4] != 0.0)) 
 			  {
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (r * w[i] * sqrt(2.0 * M_PI)) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From a31319281015cba8fdbadbb40301de38785bdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 035/164] fix: coefficient of the rational approximation of the
 Walter-Smith shadowing

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..ba909e9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -325,7 +325,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
-- 
2.43.0


From c6a552d284b6b641e6c9ac72897cf1bb4588a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 036/164] fix: Walter-Smith shadowing along the normal and its
 derivative where it is constant

---
 .../nonlinear_shadowing_walter_smith/function.cpp      | 10 ++++++----
 .../nonlinear_shadowing_walter_smith/function.hpp      |  6 ++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index ba909e9..2632c98 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -8,6 +8,8 @@
 #include <cmath>
 #include <cassert>
 
+#include <algorithm>
+
 #include <core/common.h>
 
 using namespace alta;
@@ -199,12 +201,12 @@ WalterSmith::value(const vec& x) const
     for(unsigned int i=0; i < _parameters.dimY(); i++)
     {
       //double const tan_theta_v = std::tan( std::acos( v_dot_n) );
-      double const tan_theta_v = std::sqrt(1.0 - view[2]*view[2]) / view[2];
+      double const tan_theta_v = std::sqrt(std::max(1.0 - view[2]*view[2], 0.0)) / view[2];
       double const a_view = 1.0 / (_alpha[i] * tan_theta_v);
       double const geom_term_view = shadowTerm( a_view );
 
       //double const tan_theta_l= std::tan( std::acos( light_dot_n) );
-      double const tan_theta_l = std::sqrt(1 - light[2]*light[2]) / light[2];
+      double const tan_theta_l = std::sqrt(std::max(1.0 - light[2]*light[2], 0.0)) / light[2];
       double const a_light= 1.0 / (_alpha[i] * tan_theta_l);
       double const geom_term_light = shadowTerm( a_light );
 
@@ -275,9 +277,9 @@ WalterSmith::parametersJacobian(const vec& x) const
   }
 
 
-  double const tan_theta_v = std::sqrt(1.0 - view[2]*view[2]) / view[2];
+  double const tan_theta_v = std::sqrt(std::max(1.0 - view[2]*view[2], 0.0)) / view[2];
   
-  double const tan_theta_l = std::sqrt(1 - light[2]*light[2]) / light[2];
+  double const tan_theta_l = std::sqrt(std::max(1.0 - light[2]*light[2], 0.0)) / light[2];
        
   
 
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..7024055 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -220,6 +220,12 @@ inline
 float
 WalterSmith::partialDerivative( float alpha, float tangent_value) const
 {
+  // The shadowing is constant for steep slopes
+  if( alpha * tangent_value * 1.6f <= 1.0f )
+  {
+    return 0.0f;
+  }
+
   //Exported from Maple 
   float const t1 = tangent_value;
   float const t2 = alpha * t1;
-- 
2.43.0


From ab06fc1f11c18bbf963d4e0588bd73a762df0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 037/164] fix: cosine between light and view in the retro
 Beckmann lobe

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 6d21297..c07af57 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec retrobeckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec retrobeckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From f43c8dbf4d6863fde805f05e93a97f4f61166353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 038/164] fix: type of a retro Beckmann lobe read from a file

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index c07af57..db399e1 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -225,7 +225,7 @@ bool retrobeckmann_function::load(std::istream& in)
 	}
 
 	in >> token;
-	if(token.compare("RETRO") != 0) 
+	if(token.compare("RETRO") == 0) 
 	{ 
 		_use_back_param = false;
 	}
-- 
2.43.0


From 193cb7c70a9a21455c269fc1f67de73cd0aebd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 039/164] fix: value of the Yoo lobe does not start from
 uninitialised memory

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..a14a48e 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
-- 
2.43.0


From 86733437356bb9fca3dbbb3c1bdb06a4ae037c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 040/164] fix: number of parameters of the Yoo lobe

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index a14a48e..8c63ae6 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From e32cf428a1c78c8db93743fcb58018b7e3adb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 041/164] fix: the Yoo lobe is saved in the format it is loaded
 from

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8c63ae6..b6fa81a 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -187,7 +187,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
 
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
-- 
2.43.0


From 70fa23fa16315ee5821e92ffb6e6f4b47538ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 042/164] fix: derivative of the Yoo lobe with respect to the
 mean free path

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index b6fa81a..b740430 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -115,8 +115,11 @@ vec yoo_function::parametersJacobian(const vec& x) const
 				jac[i*nbParameters() + j*2+0] = base;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				const double ql = q*_lt[i];
+				const double e  = exp(- 2.0 * 0.7 * ql);
+				const double d1 = - 2.0*ql / pow(1.0 + ql*_lt[i], 2) * (2.0 - e / ql);
+				const double d2 = (2.4 + 1.0 / (1.0 + ql*_lt[i])) * (1.4*q*ql + q) * e / (ql*ql);
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (d1 + d2);
 			}
 			else
 			{
-- 
2.43.0


From 0f5ead6a234d752db6e465909237bb8063217b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 043/164] fix: exponents of all the Lafortune lobes are loaded

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..5feed57 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -416,7 +416,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From 5d7b115ee991d1690d70357f8b9aa7adbf4cc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 044/164] fix: a new Lafortune function has one anisotropic
 lobe in Cartesian coordinates

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 5feed57..3b9fc45 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,9 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params.set_input(6, params::CARTESIAN)),
+    _n(1),
+    _isotropic(false)
 {
     auto nY = params.dimY();
 
-- 
2.43.0


From f8833ca89feb01b5e91222767403bba9436df588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 045/164] fix: diffuse term of a Lafortune function is saved
 and loaded

---
 .../nonlinear_function_lafortune/function.cpp      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 3b9fc45..34f9609 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -423,6 +423,15 @@ bool lafortune_function::load(std::istream& in)
 
 	}
 	
+	// Parse the diffuse term, that older files do not have
+	for(int i=0; i<_nY; ++i)
+	{
+		_kd[i] = 0.0;
+		if(in.good()) { in >> std::ws; }
+		if(in.good() && in.peek() == 'k') { in >> token >> _kd[i]; }
+	}
+	in.clear(in.rdstate() & ~std::ios_base::eofbit);
+
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
     return true;
@@ -453,6 +462,11 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
 
             out << std::endl;
         }
+        for(int i=0; i<_nY; ++i)
+        {
+            out << "kd " << _kd[i] << std::endl;
+        }
+        out << std::endl;
     }
     else
     {
-- 
2.43.0


From cef83985659e4d97c427f42195a7fa089bfd2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 046/164] fix: the moment spherical Gaussian scales the
 elevation of the lobe

---
 .../nonlinear_function_spherical_gaussian/function.cpp    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..4696894 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -69,7 +69,7 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 	{
 		double spherical[4];
 		params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-		spherical[1] *= _a;
+		spherical[0] *= _a;
 		spherical[1] += M_PI;
 		
 		double cart[6];
@@ -208,12 +208,14 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double theta = spherical[0];
+			 spherical[0] = _a*theta + 0.5*M_PI;
+			 spherical[1] += M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
 			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * theta * dot2;
 
 		 }
 	 }
-- 
2.43.0


From 4e08229a38f14095159fdd896cc714bdc6c85ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 047/164] fix: the retro spherical Gaussian is centered on the
 view direction

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 4696894..af5b001 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -76,6 +76,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 		params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
 		dot = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
 	}
+	else if(_type == Retro)
+	{
+		dot = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
+	}
 	else
 	{
 		double spherical[4];
-- 
2.43.0


From 2f2f176f3430e5a79c6e4b5475cefe06a9542e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 048/164] fix: the type of a spherical Gaussian is saved and
 loaded

---
 .../function.cpp                              | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index af5b001..787466e 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -22,6 +22,9 @@
 
 using namespace alta;
 
+// Names of the lobe types, in the order of their enumeration
+static const std::string TYPE_NAMES[] = { "mirror", "half", "retro", "back", "moment" };
+
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 {
     return new spherical_gaussian_function(params);
@@ -294,6 +297,22 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the type, that older files do not have
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		std::string stype;
+		in >> token >> stype;
+		const std::string* end = TYPE_NAMES + 5;
+		const std::string* pos = std::find(TYPE_NAMES, end, stype);
+		if(token != "#TYPE" || pos == end)
+		{
+			std::cerr << "<<ERROR>> parsing the stream. Unknown lobe type." << std::endl;
+			return false;
+		}
+		_type = type(pos - TYPE_NAMES);
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -321,6 +340,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
+		out << "#TYPE " << TYPE_NAMES[_type] << std::endl ;
 
          for(int i=0; i<nY; ++i)
 		 {
-- 
2.43.0


From 7d1e7666ec302a27364aa3914e78c80feb2d086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 049/164] fix: functions without parameters have an empty
 parameter vector

---
 sources/core/function.h                                 | 4 ++--
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/function.h b/sources/core/function.h
index 0cccc4c..f9c8291 100644
--- a/sources/core/function.h
+++ b/sources/core/function.h
@@ -427,7 +427,7 @@ class cosine_function : public nonlinear_function
 		//! Get the vector of parameters for the function
 		vec parameters() const 
 		{
-			vec res(1);
+			vec res(0);
 			return res;
 		}
 
@@ -440,7 +440,7 @@ class cosine_function : public nonlinear_function
 		//! parameters. 
 		vec parametersJacobian(const vec&) const 
 		{
-			vec jac(1);
+			vec jac(0);
 			return jac;
 		}
 };
diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..930126e 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 3b165a1dd357e5e9b95ee491dbf7f99801052f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 050/164] fix: the diffuse term of cosine weighted data takes
 the first sample into account

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 930126e..0330eed 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -204,7 +204,7 @@ void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
             for(int i=0; i<d->parametrization().dimY(); ++i)
                 _kd[i] = std::numeric_limits<double>::max();
 
-            for(int i=1; i<d->size(); ++i)
+            for(int i=0; i<d->size(); ++i)
             {
                 vec x = d->get(i);
                 params::convert(&x[0],
-- 
2.43.0


From 5d9de534432d14c15a221d3b830731cf74c69caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 051/164] fix: light and view directions of the SGD function

---
 sources/plugins/nonlinear_function_sgd/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index df1c884..98cfa12 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -57,13 +57,13 @@ vec shifted_gamma_function::value(const vec& x) const
 {
 	// shading
 	vec lv(3); 
-	lv[0] = x[0]; lv[1] = x[1]; lv[2] = x[2];
+	lv[0] = x[3]; lv[1] = x[4]; lv[2] = x[5];
 
 	vec n(3); 
 	n[0] = 0.0; n[1] = 0.0; n[2] = 1.0;
 
 	vec ev(3); 
-	ev[0] = x[3]; ev[1] = x[4]; ev[2] = x[5];
+	ev[0] = x[0]; ev[1] = x[1]; ev[2] = x[2];
 	
 	vec const halfVector = normalize(lv + ev);
 	
-- 
2.43.0


From 278e67be8f508af9acfeeb4d52ad9b55011ee200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 052/164] fix: derivatives of the SGD function, finite value
 for directions along the normal

---
 .../nonlinear_function_sgd/function.cpp       | 70 ++++++++++++++++---
 1 file changed, 61 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index 98cfa12..9dc02d4 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -19,6 +19,12 @@
 
 #define one_pi 0.31830988618
 
+// Angle of a cosine that rounding may have moved out of its domain
+static double angle(double cosine)
+{
+	return acos(std::min(std::max(cosine, -1.0), 1.0));
+}
+
 using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
@@ -134,18 +140,64 @@ void shifted_gamma_function::setParameters(const vec& pi)
 }
 
 //! Obtain the derivatives of the function with respect to the 
-//! parameters. \TODO
+//! parameters.
 vec shifted_gamma_function::parametersJacobian(const vec& x) const {
 	
-	const int n = _parameters.dimY();
-    vec jac(n*nbParameters());
+	const int n  = _parameters.dimY();
+	const int np = nbParameters();
+	vec jac = vec::Zero(n*np);
+
+	// Below the horizon
+	if(x[5] < 0.0) { return jac; }
+
+	vec lv(3), ev(3), nv(3);
+	lv << x[3], x[4], x[5];
+	ev << x[0], x[1], x[2];
+	nv << 0.0, 0.0, 1.0;
+
+	const vec h      = normalize(lv + ev);
+	const double v_h = dot(ev, h);
+	const double n_h = dot(nv, h);
 
-	 for(int i=0; i<n; ++i) {
-		 for(int j=0; j<nbParameters(); ++j) {
-		 	jac[i + j*n] = 0.0;
-		 }
-	 }
+	const double tan2 = (1.0 - n_h*n_h) / (n_h*n_h);
 
+	const vec d  = D(alpha, p, n_h, K_ap);
+	const vec d1 = D(alpha, p, n_h, vec::Ones(n));
+	const vec gl = G1(lv[2]), gv = G1(ev[2]);
+	const vec f  = Fresnel(F_0, F_1, v_h);
+
+	for(int i=0; i<n; ++i)
+	{
+		const int I = i*np + i;
+		const double ks = one_pi * rho_s[i];
+
+		// Shadowing terms, for the light and for the view
+		for(int k=0; k<2; ++k)
+		{
+			const double w = ks * d[i] * f[i] * (k == 0 ? gv[i] : gl[i]);
+			const double t = angle(k == 0 ? lv[2] : ev[2]) - sh_theta0[i];
+			if(t > 0.0)
+			{
+				const double tk = pow(t, sh_k[i]);
+				const double e  = sh_lambda[i] * exp(sh_c[i] * tk);
+				jac[I + 0*n] -= w * e * tk;
+				jac[I + 1*n] += w * e * sh_c[i] * sh_k[i] * pow(t, sh_k[i] - 1.0);
+				jac[I + 2*n] -= w * e * sh_c[i] * tk * log(t);
+			}
+			jac[I + 3*n] += w * (1.0 - exp(sh_c[i] * pow(std::max<double>(t, 0.), sh_k[i])));
+		}
+
+		// Microfacet distribution and Fresnel
+		const double gg = gl[i] * gv[i];
+		const double ax = alpha[i] + tan2/alpha[i];
+		jac[I +  4*n] = - ks * gg * f[i] * d[i] * log(ax);
+		jac[I +  5*n] = ks * gg * d[i] * (1.0 - pow(1.0 - v_h, 5.0));
+		jac[I +  6*n] = - ks * gg * d[i] * v_h;
+		jac[I +  7*n] = ks * gg * d1[i] * f[i];
+		jac[I +  8*n] = one_pi;
+		jac[I +  9*n] = one_pi * gg * d[i] * f[i];
+		jac[I + 10*n] = - ks * gg * f[i] * d[i] * (1.0 + p[i]/ax) * (1.0 - tan2/(alpha[i]*alpha[i]));
+	}
     return jac;
 }
 
@@ -182,7 +234,7 @@ vec shifted_gamma_function::G1(double theta) const
 	vec G1(_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
-		const double exp_shc = exp(sh_c[i] * pow(std::max<double>(acos(theta) - sh_theta0[i],0.), sh_k[i]));
+		const double exp_shc = exp(sh_c[i] * pow(std::max<double>(angle(theta) - sh_theta0[i],0.), sh_k[i]));
 		G1[i] =  1.0 + sh_lambda[i] * (1.0 - exp_shc);
 	}
 	return G1;
-- 
2.43.0


From 505c74255d084fda36b1b7e6b10b355da84fee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 053/164] fix: the SGD function is saved in the format it is
 loaded from

---
 .../nonlinear_function_sgd/function.cpp       | 27 ++++++++++++++-----
 .../plugins/nonlinear_function_sgd/function.h | 14 +++++-----
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index 9dc02d4..5d79391 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -343,12 +343,27 @@ bool shifted_gamma_function::load(std::istream& in)
 }
 
 void 
-shifted_gamma_function::save(const std::string& filename, const arguments& args) const
+shifted_gamma_function::save_call(std::ostream& out, const arguments& args) const
 {
-	NOT_IMPLEMENTED();
-}
-
-
-
+	const bool is_alta = !args.is_defined("export") || args["export"] == "alta";
+	if(!is_alta)
+	{
+		NOT_IMPLEMENTED();
+	}
 
+	// The parameters, in the order they are loaded
+	const std::pair<const char*, const vec*> values[] = {
+		{"rho_d", &rho_d}, {"rho_s", &rho_s}, {"alpha", &alpha}, {"p", &p},
+		{"F0", &F_0}, {"F1", &F_1}, {"K_ap", &K_ap}, {"lambda", &sh_lambda},
+		{"c", &sh_c}, {"k", &sh_k}, {"theta0", &sh_theta0} };
 
+	out << "#FUNC nonlinear_function_sgd" << std::endl;
+	for(auto& v : values)
+	{
+		for(int i=0; i<_parameters.dimY(); ++i)
+		{
+			out << v.first << " " << (*v.second)[i] << std::endl;
+		}
+	}
+	out << std::endl;
+}
diff --git a/sources/plugins/nonlinear_function_sgd/function.h b/sources/plugins/nonlinear_function_sgd/function.h
index e809693..b87265b 100644
--- a/sources/plugins/nonlinear_function_sgd/function.h
+++ b/sources/plugins/nonlinear_function_sgd/function.h
@@ -35,14 +35,15 @@ class shifted_gamma_function : public nonlinear_function
 		virtual vec value(const vec& x) const ;
 
 		//! \brief Export function
-		virtual void save_call(std::ostream& out, const arguments& args) const 
-    {
-			NOT_IMPLEMENTED();
-		}
+		virtual void save_call(std::ostream& out, const arguments& args) const;
 		
     virtual void save_body(std::ostream& out, const arguments& args) const 
     {
-			NOT_IMPLEMENTED();
+			// There is nothing to define in an ALTA file
+			if(args.is_defined("export") && args["export"] != "alta")
+			{
+				NOT_IMPLEMENTED();
+			}
 		}
 		
 		//! Number of parameters to this non-linear function
@@ -61,9 +62,6 @@ class shifted_gamma_function : public nonlinear_function
     //! Load BRDF parameters from .brdf file
     virtual bool load(std::istream& in);
 
-    //! Save the Function 
-    virtual void save(const std::string& filename, const arguments& args) const;
-
     friend std::ostream& operator<<(std::ostream& out, const shifted_gamma_function & sgd);
 
 	private:
-- 
2.43.0


From e3b95bd6771f9daebc1faa0c8f39906bedb65bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 054/164] fix: a function file that lacks parameters fails to
 load

---
 sources/core/function.cpp                                      | 3 +++
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp  | 2 +-
 sources/plugins/nonlinear_fresnel_retroschlick/function.cpp    | 2 +-
 sources/plugins/nonlinear_fresnel_schlick/function.cpp         | 2 +-
 sources/plugins/nonlinear_function_abc/function.cpp            | 2 +-
 sources/plugins/nonlinear_function_beckmann/function.cpp       | 2 +-
 sources/plugins/nonlinear_function_blinn/function.cpp          | 2 +-
 sources/plugins/nonlinear_function_diffuse/function.cpp        | 2 +-
 .../nonlinear_function_isotropic_lafortune/function.cpp        | 2 +-
 sources/plugins/nonlinear_function_lafortune/function.cpp      | 2 +-
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp  | 2 +-
 sources/plugins/nonlinear_function_retroblinn/function.cpp     | 2 +-
 sources/plugins/nonlinear_function_retroyoo/function.cpp       | 2 +-
 sources/plugins/nonlinear_function_sgd/function.cpp            | 2 +-
 .../plugins/nonlinear_function_spherical_gaussian/function.cpp | 2 +-
 sources/plugins/nonlinear_function_ward/function.cpp           | 2 +-
 sources/plugins/nonlinear_shadowing_schlick/function.cpp       | 2 +-
 sources/plugins/nonlinear_shadowing_smith/function.cpp         | 2 +-
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp  | 2 +-
 19 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..aad282a 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -325,6 +325,9 @@ bool nonlinear_function::load(std::istream& in)
 		in >> token >> p[i];
 	}
 
+	if(in.fail())
+		return false;
+
 	setParameters(p);
 	return true;
 }
diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 6a7adfd..975a0cc 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -68,7 +68,7 @@ bool schlick::load(std::istream& in)
     {
         in >> token >> R[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void schlick::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 03ed6b5..88fdf3a 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -154,7 +154,7 @@ bool retro_schlick::load(std::istream& in)
 	for(int i=0; i<_parameters.dimY(); ++i) {
 		in >> token >> R[i];
 	}
-	return true;
+	return !in.fail();
 }
 
 void retro_schlick::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 8d6521b..51923ec 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -70,7 +70,7 @@ bool schlick_fresnel::load(std::istream& in)
     {
         in >> token >> R[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void schlick_fresnel::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 81d5be4..8fc1ee8 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -228,7 +228,7 @@ bool abc_function::load(std::istream& in)
 		in >> token >> _b[i];
 		in >> token >> _c[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 581bda3..82a23ff 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -238,7 +238,7 @@ bool beckmann_function::load(std::istream& in)
 		in >> token >> _ks[i];
 		in >> token >> _a[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index 0018de8..6ad932e 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -107,7 +107,7 @@ bool blinn_function::load(std::istream& in)
 #ifdef DEBUG
     std::cout << "<<DEBUG>> load parameters " << parameters() << std::endl;
 #endif
-    return true;
+    return !in.fail();
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 0330eed..d1e250d 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -86,7 +86,7 @@ bool diffuse_function::load(std::istream &in)
     {
         in >> token >> _kd[i];
     }
-    return true;
+    return !in.fail();
 
 }
 
diff --git a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
index fe4f833..2d8e07a 100644
--- a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
@@ -398,7 +398,7 @@ bool isotropic_lafortune_function::load(std::istream& in)
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = "  << _N << std::endl;
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 34f9609..e991c6b 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -434,7 +434,7 @@ bool lafortune_function::load(std::istream& in)
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
-    return true;
+    return !in.fail();
 }
 
 void lafortune_function::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index db399e1..edf55a7 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -242,7 +242,7 @@ bool retrobeckmann_function::load(std::istream& in)
 		in >> token >> _ks[i];
 		in >> token >> _a[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 05d4d3e..3809cc9 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -95,7 +95,7 @@ bool retroblinn_function::load(std::istream& in)
         in >> token >> _ks[i];
         in >> token >>  _N[i];
     }
-    return true;
+    return !in.fail();
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index b740430..fd858e2 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -179,7 +179,7 @@ bool yoo_function::load(std::istream& in)
 		in >> token >> _kr[i];
 		in >> token >> _lt[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index 5d79391..fd67886 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -339,7 +339,7 @@ bool shifted_gamma_function::load(std::istream& in)
 		in >> token >> sh_theta0[i];
 	}
 
-	return true;
+	return !in.fail();
 }
 
 void 
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 787466e..57b73c3 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -328,7 +328,7 @@ bool spherical_gaussian_function::load(std::istream& in)
 
 	std::cout << "<<DEBUG>> Spherical gaussians plugin, found p= " << parameters() << std::endl;
 
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 6dba7f4..f123176 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -215,7 +215,7 @@ bool ward_function::load(std::istream& in)
 		in >> token >> _ax[i];
 		in >> token >> _ay[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 3646faa..e53ed57 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -71,7 +71,7 @@ bool schlick_masking::load(std::istream& in)
     {
         in >> token >> w[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void schlick_masking::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index b1629b6..120697a 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -72,7 +72,7 @@ bool smith::load(std::istream& in)
     {
         in >> token >> w[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void smith::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 2632c98..9569f59 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -83,7 +83,7 @@ WalterSmith::load(std::istream& in)
   #ifdef DEBUG
   std::cout << "<<DEBUG>> load parameters " << parameters() << std::endl;
   #endif
-  return true;
+  return !in.fail();
 
 
 }
-- 
2.43.0


From e8f8607a29952986972b1d3cf56b7b8ad76a923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 055/164] fix: a function file keeps the output parametrization

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index aad282a..a545321 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -136,7 +136,7 @@ void function::save_header(std::ostream& out, const arguments& args) const
 		out << "#CMD " << args.get_cmd() << std::endl;
 		out << "#DIM " << parametrization().dimX() << " " << parametrization().dimY() << std::endl;
 		out << "#PARAM_IN  " << params::get_name(parametrization().input_parametrization()) << std::endl;
-		//out << "#PARAM_OUT " << params::get_name(output_parametrization()) << std::endl;*
+		out << "#PARAM_OUT " << params::get_name(parametrization().output_parametrization()) << std::endl;
 		if(args.is_defined("export-append")) 
 		{
 			out << args["export-append"] << std::endl;
-- 
2.43.0


From 3d0bbf271f06e20155d489fec2953365fea1bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 056/164] fix: the Yoo lobe is the coherent backscattering
 enhancement of the phase angle

---
 .../nonlinear_function_retroyoo/function.cpp  | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index fd858e2..516ac53 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -36,6 +36,22 @@ yoo_function::yoo_function(const alta::parameters& params)
 }
 
 
+// Coherent backscattering enhancement as a function of q*lt, and its
+// derivative. The phase angle is the angle between the two directions.
+static double phase_angle(const vec& x)
+{
+	return acos(clamp(x[0]*x[3] + x[1]*x[4] + x[2]*x[5], -1.0, 1.0));
+}
+static double enhancement(double ql, double& derivative)
+{
+	const double e  = exp(- 2.0 * 0.7 * ql);
+	const double g  = (ql > 1.0E-5) ? (1.0 - e) / ql : 1.4 - 0.98 * ql;
+	const double dg = (ql > 1.0E-5) ? (1.4 * e - g) / ql : - 0.98;
+	const double s  = 1.0 + ql;
+	derivative = dg / (s*s) - 2.0 * (1.0 + g) / (s*s*s);
+	return 2.4 + (1.0 + g) / (s*s);
+}
+
 // Overload the function operator
 vec yoo_function::operator()(const vec& x) const 
 {
@@ -48,8 +64,9 @@ vec yoo_function::value(const vec& x) const
 	const double factor = 3.0 / (16.0*M_PI);
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
-		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		const double q = 2.0 * M_PI * phase_angle(x) / 633.0;
+		double derivative;
+		res[i] = _kr[i] * factor * enhancement(q*_lt[i], derivative);
 	}
 	return res;
 }
@@ -109,17 +126,14 @@ vec yoo_function::parametersJacobian(const vec& x) const
 		{
 			if(i == j)
 			{
-				const double q = 2.0 * M_PI * x[0] / 633.0;
-				const double base = factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+				const double q = 2.0 * M_PI * phase_angle(x) / 633.0;
+				double derivative;
+				const double base = factor * enhancement(q*_lt[i], derivative);
 				// df / dk_r
 				jac[i*nbParameters() + j*2+0] = base;
 
 				// df / dl_t
-				const double ql = q*_lt[i];
-				const double e  = exp(- 2.0 * 0.7 * ql);
-				const double d1 = - 2.0*ql / pow(1.0 + ql*_lt[i], 2) * (2.0 - e / ql);
-				const double d2 = (2.4 + 1.0 / (1.0 + ql*_lt[i])) * (1.4*q*ql + q) * e / (ql*ql);
-				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (d1 + d2);
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * q * derivative;
 			}
 			else
 			{
-- 
2.43.0


From b303f9e2be0fc4a51b217aa0a98a5595e3f4bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 057/164] fix: bracketed values inside the elements of a
 bracketed list

---
 sources/core/args.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 3987837..f176675 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <cctype>
+#include <algorithm>
 
 #include "common.h"
 
@@ -70,12 +71,12 @@ class arguments
                 {
                     --i;
                 }
-                else if(next[0] == '[' && next[next.size()-1] != ']')
+                else if(next[0] == '[' && (next[next.size()-1] != ']' || bracket_depth(next) > 0))
                 {
                     data.append(next);
 
                     ++i;
-                    while(i < argc && next[next.size()-1] != ']')
+                    while(i < argc && (next[next.size()-1] != ']' || bracket_depth(data) > 0))
                     {
                         next = argv[i] ;
                         data.append(" ");
@@ -321,7 +322,13 @@ class arguments
               size_t pos = 1;
               while(pos != std::string::npos)
               {
+                  // Elements can hold bracketed values of their own
                   size_t ppos = s.find(',', pos);
+                  while(ppos != std::string::npos
+                        && bracket_depth(s.substr(0, ppos)) > 1)
+                  {
+                      ppos = s.find(',', ppos+1);
+                  }
 
                   if(ppos != std::string::npos)
                   {
@@ -522,6 +529,15 @@ class arguments
 		}
 
 
+	protected: // methods
+
+		//! \brief Number of brackets left open in a string
+		static int bracket_depth(const std::string& s)
+		{
+			return int(std::count(s.begin(), s.end(), '['))
+			     - int(std::count(s.begin(), s.end(), ']'));
+		}
+
 	protected: // data
 
 		std::map<std::string, std::string> _map ;
-- 
2.43.0


From 828d55e3231b4cd33c66376a5cf17681fd4f1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 058/164] fix: plugin names shorter than the library extension
 or ending as it do

---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..4fdb8c2 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -46,7 +46,7 @@ static std::string library_name(const std::string name)
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(n < 3 || name.substr(n-3, n) != std::string(".so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From db96e20f54179f3a2c607241662a6becfe08f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 059/164] fix: a function request that cannot be satisfied
 returns null

---
 sources/core/plugins_manager.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 4fdb8c2..b8e966f 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -289,6 +289,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_f == NULL)
       {
           std::cerr << "<<ERROR>> only non-linear functions are compatible with a compound" << std::endl;
+          delete f;
+          return NULL;
       }
       else
       {
@@ -310,6 +312,10 @@ function* plugins_manager::get_function(const arguments& args,
   else //Here we check if the argument provided with --func is file describing a function
   {
     const std::string filename = args["func"];
+    if(filename == "rational_function")
+    {
+      return new rational_function(params);
+    }
     FunctionPrototype myFunction = open_library<FunctionPrototype>(filename, "provide_function");
     if(myFunction != NULL)
     {
@@ -322,7 +328,7 @@ function* plugins_manager::get_function(const arguments& args,
     else
     {
       std::cerr << "<<ERROR>> no function provider found in file \"" << filename << "\"" << std::endl;
-      return new rational_function(params) ;
+      return NULL;
     }
   }
 
@@ -340,7 +346,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_func == NULL)
       {
        std::cerr << "<<ERROR>> only non-linear function are permitted to use Fresnel" << std::endl;
-       return func;
+       delete func;
+       return NULL;
       }
 
       std::cout << "<<DEBUG>> multiplying by a Fresnel term" << std::endl;
@@ -358,7 +365,8 @@ function* plugins_manager::get_function(const arguments& args,
        {
          std::cerr << "<<ERROR>> Fresnel plugin not defined" << std::endl;
          std::cerr << "<<ERROR>> using --fresnel alone is not permitted" << std::endl;
-         return func;
+         delete func;
+         return NULL;
        }
        else // Case where the fresnel parameters is only the plugin filename
        {
@@ -394,8 +402,9 @@ function* plugins_manager::get_function(const arguments& args,
       }
       else
       {
-        std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function. Will use only the left part." << std::endl;
-        return func;
+        std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function." << std::endl;
+        delete func;
+        return NULL;
       }
    }
 
-- 
2.43.0


From 216fa1998a12a9a5ae8a86357d08bde19d4880d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 060/164] fix: loading a function file without dimensions or of
 an unknown plugin returns null

---
 sources/core/plugins_manager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b8e966f..fd757c8 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -215,16 +215,23 @@ function* plugins_manager::load_function(const std::string& filename)
   param_out = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
   args = arguments::create_arguments(header["CMD"]);
 
+  if(dim.first < 1 || dim.second < 1)
+  {
+    std::cerr << "<<ERROR>> undefined or invalid dimensions in function file \"" << filename << "\"" << std::endl;
+    return NULL;
+  }
+
   parameters params(dim.first, dim.second, param_in, param_out);
 
   // Create the function from the command line
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f != NULL && f->load(file) )
   {
     return f;
   }
+  delete f;
 
   std::cout << "<<ERROR>> COULD NOT LOAD THE BRDF from File " << filename << std::endl;
    return NULL;
-- 
2.43.0


From 9826d29b1c90d870e899e8543fd5820d4264e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 061/164] fix: a file that lacks a part of a compound or
 product fails to load

---
 sources/core/function.cpp | 40 +++++----------------------------------
 sources/core/function.h   |  5 ++---
 2 files changed, 7 insertions(+), 38 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index a545321..533273f 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -522,21 +522,13 @@ unsigned int compound_function::size() const
 
 bool compound_function::load(std::istream& in)
 {
-	int nb_good = 0; // Number of correctly openned functions
-	for(unsigned int i=0; i<fs.size(); ++i)
+	unsigned int nb_good = 0; // Number of correctly openned functions
+	while(nb_good < fs.size() && fs[nb_good]->load(in))
 	{
-		std::streampos pos = in.tellg();
-		if(!fs[i]->load(in))
-		{
-			in.seekg(pos);
-		}
-		else
-		{
-			nb_good++;
-		}
+		nb_good++;
 	}
 	std::cout << "<<DEBUG>> number of correct function loaded in compound: " << nb_good  << " / " << fs.size() << std::endl;
-	return nb_good > 0;
+	return nb_good == fs.size();
 }
 
 void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
@@ -881,29 +873,7 @@ vec product_function::value(const vec& x) const
 		
 bool product_function::load(std::istream& in)
 {
-	bool loaded_f1 = false,loaded_f2 = false;
-	std::streampos pos = in.tellg();
-
-	// Load the first function
-	if(f1) {
-		loaded_f1 = f1->load(in);
-		if(! loaded_f1)
-		{
-			in.seekg(pos);
-		}
-	}
-
-	pos = in.tellg();
-	// Load the second function
-	if(f2) {
-		loaded_f2 = f2->load(in);
-		if(! loaded_f2)
-		{
-			in.seekg(pos);
-		}
-	}
-
-	return loaded_f1 || loaded_f2;
+	return f1->load(in) && f2->load(in);
 }
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
diff --git a/sources/core/function.h b/sources/core/function.h
index f9c8291..71994f0 100644
--- a/sources/core/function.h
+++ b/sources/core/function.h
@@ -343,9 +343,8 @@ class product_function : public nonlinear_function
 
 		/* IMPORT/EXPORT FUNCTIONS */
 		
-		//! \brief Load the two functions in order f1, then f2. If one of the 
-		//! function cannot be loaded, this function will continue. It will only
-		//! return false if both functions cannot be loaded.
+		//! \brief Load the two functions in order f1, then f2. Return false
+		//! if one of them cannot be loaded.
 		virtual bool load(std::istream& in);
 
 		//! \brief save function specific data. This has no use for ALTA export
-- 
2.43.0


From 192abb35c51b48ae30507993c1b97ed018fb27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 062/164] fix: bootstrap of a compound or product from a file
 goes on after a part that is not in it

---
 sources/core/function.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 533273f..1f089a1 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -569,7 +569,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				// Load the file
 				// For each individual element, the input file is parsed
@@ -588,6 +588,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						pos = file.tellg();
 						if(!f1->load(file))
 						{
+							file.clear();
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
@@ -600,6 +601,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						pos = file.tellg();
 						if(!f2->load(file))
 						{
+							file.clear();
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
@@ -613,6 +615,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						// in the previous state and bootstrap normaly this function.
 						if(!fs[i]->load(file))
 						{
+							file.clear();
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
@@ -945,7 +948,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				std::streampos pos = file.tellg();
 
@@ -953,6 +956,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				// in the previous state and bootstrap normaly this function.
 				if(!f1->load(file))
 				{
+					file.clear();
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
@@ -962,8 +966,10 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				
 				// If the second function cannot be loaded, put the input stream
 				// in the previous state and bootstrap normaly this function.
+				pos = file.tellg();
 				if(!f2->load(file))
 				{
+					file.clear();
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
-- 
2.43.0


From ed7234954aee9e7c866b1595443a41468a9afd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 063/164] fix: a Lafortune file cut before its diffuse term or
 without a number of lobes fails to load

---
 .../nonlinear_function_lafortune/function.cpp | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index e991c6b..772c3b7 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -406,10 +406,25 @@ bool lafortune_function::load(std::istream& in)
 	 // Shoudl have the #NB_LOBES [int]
 	 int nb_lobes;
 	 in >> token >> nb_lobes;
+	 if(in.fail() || token != "#NB_LOBES" || nb_lobes < 1)
+		 return false;
 	 setNbLobes(nb_lobes);
 
-	// Parse the lobe
+	// Parse the diffuse term, that older files do not have
     const int _nY = _parameters.dimY();
+	in >> std::ws;
+	const bool has_diffuse = in.peek() == 'k';
+	for(int i=0; i<_nY; ++i)
+	{
+		_kd[i] = 0.0;
+		if(has_diffuse)
+		{
+			in >> token >> _kd[i];
+			if(token != "kd") { return false; }
+		}
+	}
+
+	// Parse the lobe
 	for(int n=0; n<_n; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
@@ -422,15 +437,6 @@ bool lafortune_function::load(std::istream& in)
 		}
 
 	}
-	
-	// Parse the diffuse term, that older files do not have
-	for(int i=0; i<_nY; ++i)
-	{
-		_kd[i] = 0.0;
-		if(in.good()) { in >> std::ws; }
-		if(in.good() && in.peek() == 'k') { in >> token >> _kd[i]; }
-	}
-	in.clear(in.rdstate() & ~std::ios_base::eofbit);
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
@@ -447,6 +453,11 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
         out << "#FUNC nonlinear_function_lafortune" << std::endl ;
         out << "#NB_LOBES " << _n << std::endl ;
 
+        for(int i=0; i<_nY; ++i)
+        {
+            out << "kd " << _kd[i] << std::endl;
+        }
+
         for(int n=0; n<_n; ++n)
         {
 
@@ -462,11 +473,6 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
 
             out << std::endl;
         }
-        for(int i=0; i<_nY; ++i)
-        {
-            out << "kd " << _kd[i] << std::endl;
-        }
-        out << std::endl;
     }
     else
     {
@@ -509,6 +515,9 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
 
 void lafortune_function::save_body(std::ostream& out, const arguments& args) const
 {
+    bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
+    if(!is_shader) { return; }
+
     out << "vec3 lafortune(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 Cx, vec3 Cy, vec3 Cz, vec3 Nl)" << std::endl;
     out << "{" << std::endl;
     out << "\tvec3 ext_dot = Cx * dot(L,X)*dot(V,X) + Cy * dot(L,Y)*dot(V,Y) + Cz * dot(L,N)*dot(V,N);" << std::endl;
-- 
2.43.0


From 50420dcbdba32905b111e388e3b9da14f63b04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 064/164] fix: a rational function file that lacks coefficients
 fails to load

---
 sources/core/rational_function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 13730df..e877dfd 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -50,6 +50,7 @@ bool rational_function_1d::load(std::istream& in)
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
 	if(token != "#NQ") { return false; }
+	if(in.fail() || _np < 1 || _nq < 1) { return false; }
 	vec a(_np), b(_nq);
 
 	// Parse the p_i coefficients
@@ -73,6 +74,7 @@ bool rational_function_1d::load(std::istream& in)
 		}
 		in >> b[j];
 	}
+	if(in.fail()) { return false; }
 #ifdef NONE
 	std::cout << "p_" << i << " = " << a << std::endl;
 	std::cout << "q_" << i << " = " << b << std::endl;
-- 
2.43.0


From 8bbc295675522af013e0518e2aefb64cf2ecdb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 065/164] fix: dimension of an ABC function loaded as a part of
 a compound

---
 sources/plugins/nonlinear_function_abc/function.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 8fc1ee8..4ff0069 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -211,8 +211,10 @@ bool abc_function::load(std::istream& in)
 	}
 	in >> token;
 
-	setParametrization(alta::parameters(_parameters.dimX(), _parameters.dimY(),
-                                      params::parse_input(token),
+	const params::input param_in = params::parse_input(token);
+	const int dimX = params::dimension(param_in);
+	setParametrization(alta::parameters(dimX > 0 ? dimX : _parameters.dimX(),
+                                      _parameters.dimY(), param_in,
                                       _parameters.output_parametrization()));
 
 	if(params::dimension(_parameters.input_parametrization()) != 1)
-- 
2.43.0


From 030e6412a66f8672f3e8b6a75df382f6e2ba347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 066/164] fix: parts of a compound keep the parametrization
 they were created in

---
 .../nonlinear_fresnel_schlick/function.cpp       | 16 ++++++++++++++++
 .../nonlinear_function_retroblinn/function.cpp   | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 51923ec..7979bdd 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -65,6 +65,21 @@ bool schlick_fresnel::load(std::istream& in)
         return false;
     }
 
+	// Parse the parametrization, that older files do not have
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		in >> token;
+		if(token != "#PARAM") { return false; }
+		in >> token;
+
+		const params::input param_in = params::parse_input(token);
+		const int dimX = params::dimension(param_in);
+		setParametrization(alta::parameters(dimX > 0 ? dimX : _parameters.dimX(),
+		                                    _parameters.dimY(), param_in,
+		                                    _parameters.output_parametrization()));
+	}
+
     // R [double]
     for(int i=0; i<_parameters.dimY(); ++i)
     {
@@ -80,6 +95,7 @@ void schlick_fresnel::save_call(std::ostream& out, const arguments& args) const
     if(is_alta)
     {
         out << "#FUNC nonlinear_fresnel_schlick" << std::endl ;
+        out << "#PARAM " << params::get_name(_parameters.input_parametrization()) << std::endl ;
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << "R " << R[i] << std::endl;
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 3809cc9..6ceb34b 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -88,6 +88,21 @@ bool retroblinn_function::load(std::istream& in)
         return false;
     }
 
+	// Parse the parametrization, that older files do not have
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		in >> token;
+		if(token != "#PARAM") { return false; }
+		in >> token;
+
+		const params::input param_in = params::parse_input(token);
+		const int dimX = params::dimension(param_in);
+		setParametrization(alta::parameters(dimX > 0 ? dimX : _parameters.dimX(),
+		                                    _parameters.dimY(), param_in,
+		                                    _parameters.output_parametrization()));
+	}
+
     // ks [double]
 	 // N  [double]
     for(int i=0; i<_parameters.dimY(); ++i)
@@ -178,6 +193,7 @@ void retroblinn_function::save_call(std::ostream& out,
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_retroblinn" << std::endl ;
+		out << "#PARAM " << params::get_name(_parameters.input_parametrization()) << std::endl ;
 
 		 for(int i=0; i<_parameters.dimY(); ++i)
 		 {
-- 
2.43.0


From 5b9a1b735f0d083c8d038183945e8029e122f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 067/164] fix: error metrics with a mask use exactly the
 selected samples

---
 sources/core/metrics.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..c162d85 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -61,8 +61,8 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    // Evaluate the input data at each position of data_x configuration
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
-      // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      // Only count the entries the mask selects
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -90,6 +90,9 @@ void errors::evaluate(const data* inp,
    // Is there a mask function to be applied
    const bool has_mask = mask != nullptr;
 
+   // Row of the next selected entry in the output matrices
+   int row = -1;
+
    // Evaluate the input data at each position of data_x configuration
    for(auto i=0; i<ref->size(); i++) {
 
@@ -97,6 +100,7 @@ void errors::evaluate(const data* inp,
       if(has_mask && mask->get(i).tail(1)[0] == 0.0) {
          continue;
       }
+      ++row;
 
       ref_xy = ref->get(i);
       ref_x  = ref_xy.head(nX);
@@ -117,8 +121,8 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
@@ -128,8 +132,8 @@ void errors::evaluate(const data* inp,
                          inp_y.row(i).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
    }
 }
-- 
2.43.0


From bb7cdce802f6037f358fce51a4f775073789916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 068/164] fix: Linf_distance reports the variance of the error
 it averages

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1f089a1..45c7c87 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -268,7 +268,7 @@ double function::Linf_distance(const ptr<data>& d) const
     for(int j=0; j<d->parametrization().dimY(); ++j)
 		{ 
       y[j] = dat[d->parametrization().dimX()+j];
-			var[j] += pow(mean[j] - (val[j]-y[j]), 2) / double(d->size());
+			var[j] += pow(mean[j] - (y[j]-val[j]), 2) / double(d->size());
 		}
 	}
 
-- 
2.43.0


From 03d6e8787d948e542d5fd41d84006743e34e0439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 069/164] fix: brdf2stats writes the light and view weighted
 errors it computed

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..1213030 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -667,8 +667,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From 63b21ef5ed76bf5ff631a423abf7fac893671498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 070/164] fix: brdf2stats takes the light and view cosines from
 the right directions

---
 sources/softs/fit2stat/fit2stat.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 1213030..a158aaf 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -324,20 +324,18 @@ void computeCosineFactorsFromData( ptr<data> const & data,
   cosine_theta_view.setZero( data->size() );
   cosine_theta_light.setZero( data->size() );
   
-  if( data->parametrization().input_parametrization() == params::CARTESIAN)
-  {
-    vec data_x = vec::Zero( data->parametrization().dimX() );
+  vec data_x = vec::Zero( data->parametrization().dimX() );
+  vec cart   = vec::Zero( 6 );
 
-    for( unsigned int i=0; i < data->size(); i++)
-    {
-      data_x = (data->get(i)).head( data->parametrization().dimX() );
-      cosine_theta_light[i] = data_x[2];
-      cosine_theta_view[i]  = data_x[5];
-    }
-  }
-  else
+  for( unsigned int i=0; i < data->size(); i++)
   {
-    NOT_IMPLEMENTED();
+    data_x = (data->get(i)).head( data->parametrization().dimX() );
+    params::convert( &data_x[0], data->parametrization().input_parametrization(),
+                     params::CARTESIAN, &cart[0] );
+
+    // The view direction comes first in CARTESIAN
+    cosine_theta_view[i]  = cart[2];
+    cosine_theta_light[i] = cart[5];
   }
 }
 
-- 
2.43.0


From 2a7092af27a081567817c16ea9d77c74d14e0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 071/164] fix: brdf2stats converts data whose input and output
 parametrizations both differ

---
 sources/softs/fit2stat/fit2stat.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index a158aaf..8c8d533 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -257,9 +257,7 @@ bool convertDataToFunctionParam(ptr<data> const & data,
   }// End if 
   else // Input parametrization are different
   {
-    // Output param are the same
-    // Converting to the function input parametrization
-    if( data->parametrization().output_parametrization() == f->parametrization().output_parametrization() ) 
+    // Converting to the function input and output parametrizations
     {
       parameters p(f->parametrization().dimX(), f->parametrization().dimY(),
                    f->parametrization().input_parametrization(), f->parametrization().output_parametrization());
@@ -287,28 +285,18 @@ bool convertDataToFunctionParam(ptr<data> const & data,
                         data->parametrization().input_parametrization(),
                         f->parametrization().input_parametrization(),
                         &new_data_x[0]);
+        params::convert(&data_y[0],
+                        data->parametrization().output_parametrization(),
+                        data->parametrization().dimY(),
+                        f->parametrization().output_parametrization(), f->parametrization().dimY(),  &new_data_y[0]);
 
         new_data.head( f->parametrization().dimX() ) = new_data_x;
-        new_data.tail( f->parametrization().dimY() ) = data_y;
+        new_data.tail( f->parametrization().dimY() ) = new_data_y;
 
         converted_data->set(i, new_data );
       }//end of for-loop
 
     }
-    else //EVERYTHING IS DIFFERENT ! ALL TO FUNCTION PARAMETRIZATIONS
-    {
-      //       unsigned int const new_size = f->parametrization().dimX() + f->parametrization().dimY();
-      // converted_data = new vertical_segment( f->parametrization().dimX(), f->parametrization().dimY(), data->size() );
-      // converted_data->setParametrizations( f->parametrization().input_parametrization(), f->parametrization().output_parametrization() );
-      
-      // for( unsigned int i=0; i < converted_data->size(); i++)
-      // {
-      //   vec const dat = data->get(i);
-      //   vec const data_x = dat.head( data->parametrization().dimX() );
-      //   vec const data_y = dat.tail( data->parametrization().dimY() );
-      // }
-      NOT_IMPLEMENTED();
-    }
   }
 
   return true;
-- 
2.43.0


From 77b0674f697980e3a79b12f884a486fea121e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 072/164] fix: brdf2stats measures the distance to the data it
 converted, and reports data it cannot load

---
 sources/softs/fit2stat/fit2stat.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 8c8d533..2a3a080 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -467,6 +467,12 @@ main(int argc, char* argv[])
     return EXIT_FAILURE;
   }
 
+  if(!vs_data)
+  {
+    std::cerr << "<<ERROR>> Could not load data file \'" << args["input"] << "\'" << std::endl;
+    return EXIT_FAILURE;
+  }
+
 
   std::cout << "<<INFO>> DATA LOADED in " << t << std::endl;
   t.reset();
@@ -668,14 +674,14 @@ main(int argc, char* argv[])
 
   //Comparisons with the norm methods provided in function.cpp
   t.start();
-  double const L2   = brdf->L2_distance( vs_data ) ;
+  double const L2   = brdf->L2_distance( converted_data ) ;
   t.stop();
   std::cout << "<<INFO>> L2, (computed from function)  distance to data = " << L2  
             << " (computed in " << t << ")" << std::endl;
   t.reset();
 
   t.start();
-  double const Linf = brdf->Linf_distance( vs_data );
+  double const Linf = brdf->Linf_distance( converted_data );
   t.stop();
   std::cout << "<<INFO>> Linf distance to data = " << Linf 
             << " (computed in " << t << ")" << std::endl;
-- 
2.43.0


From 9b6a7295b923b6f3f1f744100d6102db8c58e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 073/164] fix: the quadratic solver divided by zero without
 inequality constraints

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..fa01adb 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -280,7 +280,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   bool done_with_current_subset = false;
   long flops0 = 0, flops1 = 0;
   int iter = 0;
-  int nb_chunks = (m+chunk_size-1)/chunk_size;
+  int nb_chunks = chunk_size>0 ? (m+chunk_size-1)/chunk_size : 0;
   int nb_satisfied_chunks = 0;
   while(iter<=10*m) // make sure we do not run into an infinite loop
   {
-- 
2.43.0


From 1afb90a6eb501cdfd5787196f3e09f9a81c9ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 074/164] fix: the worst set first scheduling of the quadratic
 solver could leave the worst constraint out

---
 external/quadprog++/QuadProg++.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index fa01adb..c4ce686 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -131,12 +131,11 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
   Index first, last ;
 
-  ncut--; // to fit the zero-based indices
+  ncut += start-1; // to fit the zero-based indices
   first = start;
-  last = n-1;
+  last = M.cols()-1;
   if (ncut < first || ncut > last ) return;
 
   do {
@@ -363,10 +362,11 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
       {
         // Pack the active set to the front
         int j = 0;
+        int na = iq-p; // number of active inequalities
         for(int i=p; i<iq; ++i)
         {
           int Ai = A[i];
-          if(Ai>=iq-p)
+          if(Ai>=na)
           {
             while(iai[j]==-1) j++;
             std::swap(s(Ai), s(j));
@@ -377,17 +377,17 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
           }
         }
         for (int i = 0; i < m; i++) iai[i] = i;
-        for(int i=p; i<iq; ++i)
+        for(int i=0; i<na; ++i)
           iai[i] = -1;
 
         // Update all remaining inequalities
-        s.tail(m-iq)            = ci0.tail(m-iq);
-        s.tail(m-iq).noalias() += CI.rightCols(m-iq).transpose() * x;
-        flops1 += (m-iq) * n;
+        s.segment(na,m-na)            = ci0.tail(m-na);
+        s.segment(na,m-na).noalias() += CI.rightCols(m-na).transpose() * x;
+        flops1 += (m-na) * n;
 
         // Pack worst inequalities right after the active set
-        chunk_size = std::min(m,std::max(chunk_size,iq*2));
-        partial_sort(s,CI,ci0,iq,chunk_size-iq);
+        chunk_size = std::min(m,std::max(chunk_size,na*2));
+        partial_sort(s,CI,ci0,na,chunk_size-na);
 
         done_with_current_subset = true;
         continue;
-- 
2.43.0


From 3a8eb5b958143a7138513cc153c3cfbf455c8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 075/164] fix: a chunk size larger than the number of
 constraints crashed the quadratic solver

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index c4ce686..cbeddcd 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -256,7 +256,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   for (int i = 0; i < m; i++) iai[i] = i;
 
   int chunk_start=0, chunk_size = scheduling.initial_chunk_size;
-  if(scheduling.mode==Scheduling::WorstFirst)
+  if(scheduling.mode==Scheduling::WorstFirst || chunk_size>m)
     chunk_size = m;
 
 //   if(active_set)
-- 
2.43.0


From 6dfe79ccc96f8f28421524efd2b34ef945b1079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 076/164] fix: the parallel fitter minimised an objective with
 uninitialised linear terms

---
 sources/plugins/rational_fitters/quadratic_program.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..fa50a6b 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -99,7 +99,7 @@ class quadratic_program
          const int n = CI.cols();
 
          Eigen::MatrixXd G (m, m) ;
-         Eigen::VectorXd g (m) ;
+         Eigen::VectorXd g = Eigen::VectorXd::Zero(m) ;
          Eigen::VectorXd ci(n) ;
          Eigen::MatrixXd CE(m, 0) ;
          Eigen::VectorXd ce ;
-- 
2.43.0


From b3952c120dbbc3dcf0b3f6f03e81b5217703c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 077/164] fix: the parallel fitter gave up right after adding
 the last constraint

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..b59597c 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -348,7 +348,7 @@ class rational_fitter_parallel : public fitter
 #endif
                return false;
             }
-         } while(qp.nb_constraints() < 2*m);
+         } while(qp.nb_constraints() <= 2*m);
 
          return false;
       }
-- 
2.43.0


From a157f1fd310acb3e76e1decf2d20438487098bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 078/164] fix: the parallel fitter wrote every converted sample
 over the previous one

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index b59597c..b1f111d 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -111,21 +111,21 @@ class rational_fitter_parallel : public fitter
                const vec x = dat->get(i);
 
                for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
+                  content[i*elem_size + k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
                      (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
                      (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content, std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From dcfdeb253a2857fbb4f691971ccc8e4334abe4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 079/164] fix: the eigen fitter skipped the null eigenvector
 when round-off made its eigenvalue negative

---
 sources/plugins/rational_fitters/eigen.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 2e2997f..357be34 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -180,8 +180,9 @@ class rational_fitter_eigen : public fitter
 				double min_val = std::numeric_limits<double>::max() ;
 				for(int i=0; i<solver.eigenvalues().size(); ++i)
 				{
-					double value = solver.eigenvalues()[i] ;
-					if(value >= 0 && value < min_val)
+					// Null eigenvalues can be slightly negative
+					double value = std::abs(solver.eigenvalues()[i]) ;
+					if(value < min_val)
 					{
 						min_id  = i ;
 						min_val = value ;
-- 
2.43.0


From 0d8cf9384a99133de7df2937558f8304d4bd9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 080/164] fix: the least square fitter reported success with
 undefined coefficients

---
 sources/plugins/rational_fitters/leastsquare.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/leastsquare.cpp b/sources/plugins/rational_fitters/leastsquare.cpp
index 1c0ba24..604a39c 100644
--- a/sources/plugins/rational_fitters/leastsquare.cpp
+++ b/sources/plugins/rational_fitters/leastsquare.cpp
@@ -211,7 +211,13 @@ class rational_fitter_leastsquare : public fitter
       //       std::cout << "<<INFO>> LS error " << (A*x-Y).norm()/Y.norm() << std::endl;
          }
       } // iterations
-      
+
+      // The denominator can vanish: there is no solution then
+      if(!(pq.array() == pq.array()).all())
+      {
+         return false;
+      }
+
       vec p(np), q(nq);
       Eigen::VectorXd::Map(&p[0], np) = pq.head(np);
       Eigen::VectorXd::Map(&q[0], nq) = pq.tail(nq);
-- 
2.43.0


From 3024cf4df477605b098f9ac6f6c8b7ab3bc1a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 081/164] fix: the parallel fitter inverted the interval it
 gives to a negative sample

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index b1f111d..f506ff6 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -114,12 +114,14 @@ class rational_fitter_parallel : public fitter
                   content[i*elem_size + k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
+                  const double y = x[k + dat->parametrization().dimX()];
                   content[i*elem_size + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
-                     (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+                     y - args.get_float("dt", 0.1) * std::abs(y);
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
+                  const double y = x[k + dat->parametrization().dimX()];
                   content[i*elem_size + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
-                     (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+                     y + args.get_float("dt", 0.1) * std::abs(y);
                }
             }
 
-- 
2.43.0


From 48999e1f86cf1751a225dd24f269f76bb0a2f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 082/164] fix: the parallel fitter ignored --nb-starting-points

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f506ff6..0f23c67 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -141,7 +141,7 @@ class rational_fitter_parallel : public fitter
          const int _max_np = args.get_int("np", _min_np);
          std::cout << "<<INFO>> N in  [" << _min_np << ", " << _max_np << "]"  << std::endl ;
 
-         const int nb_starting_points = args.get_int("nb-starting-points", 100);
+         nb_starting_points = args.get_int("nb-starting-points", 100);
          std::cout << "<<INFO>> number of data point used in start: " << nb_starting_points << std::endl;
 
          const int  step      = args.get_int("np-step", 1);
@@ -302,7 +302,7 @@ class rational_fitter_parallel : public fitter
 
          // Starting with only a nb_starting_points vertical segments
          std::list<unsigned int> training_set;
-         const int di = std::max((m-1) / (nb_starting_points-1), 1);
+         const int di = std::max((m-1) / std::max(nb_starting_points-1, 1), 1);
          for(int i=0; i<m; ++i)
          {
             if(i % di == 0)
-- 
2.43.0


From 94e2ff5d00161e25f904b805d5e46b8eb0c25b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 083/164] fix: concurrent solves of the quadratic program wrote
 the same global vector

---
 external/quadprog++/QuadProg++.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index cbeddcd..0db3e74 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -159,8 +159,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   } while (mid != ncut );
 }
 
-VectorXd g_u;
-
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
                                  Ref<const MatrixXd> CI_, Ref<const VectorXd> ci0_,
@@ -271,7 +269,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 //       add_constraint(R, J, d, iq, R_norm);
 //     }
 //     if(active_set->size()>0)
-//       u.head(iq+1) = g_u.head(iq+1);
 //     //u[iq] = r[iq] = d[iq] = z[iq] = 0;
 //   }
 
@@ -584,8 +581,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return std::numeric_limits<double>::max();
   }
 
-  g_u = u;
-
   if(active_set)
     *active_set = A.head(iq);
 
-- 
2.43.0


From c7d3ab737bf24b7d105b61bc16cfad4b54d97b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 084/164] fix: the parallel fitter terminated the program when
 the function was not rational

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 0f23c67..044b0e8 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -192,7 +192,7 @@ class rational_fitter_parallel : public fitter
                if(!rk)
                {
                   std::cerr << "<<ERROR>> unable to obtain a rational function from the plugins manager" << std::endl;
-                  throw;
+                  continue;
                }
 
                rk->setMin(r->min()) ;
-- 
2.43.0


From 64e964b26857d4e347fe6456f815d8b69e40b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 085/164] fix: the parallel fitter returned whichever of
 equally good solutions came first

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 044b0e8..311174a 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -168,6 +168,7 @@ class rational_fitter_parallel : public fitter
             double mean_delta = 0.0;
             int nb_sol_found  = 0;
             int nb_sol_tested = 0;
+            int best_nq       = i;
 
 #pragma omp parallel for shared(r, args, nb_sol_found, nb_sol_tested, min_delta, mean_delta), schedule(dynamic,1)
             for(int j=1; j<i; ++j)
@@ -219,11 +220,16 @@ class rational_fitter_parallel : public fitter
                      std::cout << std::endl;
 
                      // Get the solution with the minimum delta or the minimum L2 distance,
-                     // and update the main rational function r.
-                     if((use_delta && delta < min_delta) || (!use_delta && l2_dist < min_l2_dist))
+                     // and update the main rational function r. Equally good solutions are
+                     // told apart by their size, so that the result does not depend on
+                     // which thread comes first.
+                     const double crit = use_delta ? delta     : l2_dist;
+                     const double best = use_delta ? min_delta : min_l2_dist;
+                     if(crit < best || (crit == best && temp_nq < best_nq))
                      {
                         min_delta   = delta ;
                         min_l2_dist = l2_dist ;
+                        best_nq     = temp_nq ;
                         r->setSize(temp_np, temp_nq);
                         r->update(rk);
                      }
-- 
2.43.0


From 8e7bd6bb59ab490656426eab6bcef0699b00c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 086/164] fix: data2data counted the incorrect configurations
 without synchronisation

---
 sources/softs/data2data/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..908639b 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -231,7 +231,7 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
     unsigned int stats_incorrect = 0;
 
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
 		{
         vec temp(d_in->parametrization().dimX());
-- 
2.43.0


From b2c101f63adc9f524c47426789b3ab416fc06140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 087/164] fix: the RBF interpolant missed nearest samples and
 differed from run to run

---
 sources/plugins/data_interpolants/rbf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..eb9de29 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -104,7 +104,7 @@ class rbf_interpolant : public data
             vec x = _data->get(i);
             memcpy(pts[i], &x[0], parametrization().dimX()*sizeof(double));
         }
-        _kdtree = new flann::Index< flann::L2<double> >(pts, flann::KDTreeIndexParams(4));
+        _kdtree = new flann::Index< flann::L2<double> >(pts, flann::KDTreeSingleIndexParams());
         _kdtree->buildIndex();
 #endif
     }
-- 
2.43.0


From e33117464786fee46f256a2c7359bfda746d3fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 088/164] fix: binary UTIA files were written as concatenated
 text

---
 sources/plugins/data_io/utia.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..1b24ebe 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -140,13 +140,7 @@ public:
 			delete[] temp;
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
-			int count = 0;
-			for(int isp=0;isp<planes;isp++)	{
-			  for(int ni=0;ni<nti*npi;ni++)
-			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
-			    }
-			}
+			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
 		}
 	}
 
-- 
2.43.0


From 9dd9862c9dbe852882ce07f197d3a48c6a86878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 089/164] fix: a new UTIA data set held uninitialised values

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 1b24ebe..3b15038 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -103,7 +103,7 @@ public:
 		this->npv = NPV;
 		this->planes = 3;
 		this->nPerPlane = N_PER_PLANE;
-		this->Bd = new double[planes*nti*npi*ntv*npv];
+		this->Bd = new double[planes*nti*npi*ntv*npv]();
 
 		_min = vec(4);
 	    _min[0] = 0.0;
-- 
2.43.0


From 32c3832af26d2b4fe4ec26fab78b63f8444a6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 090/164] fix: UTIA lookups outside the angular domain read out
 of bounds

---
 sources/plugins/data_io/utia.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 3b15038..890ba0a 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -20,6 +20,7 @@
 #include <core/common.h>
 #include <core/data.h>
 
+#include <algorithm>
 #include <iostream>
 #include <fstream>
 #include <cstdio>
@@ -197,6 +198,10 @@ public:
 		double phi_v   = in[3];
 
 
+		// Elevation angles start at the pole
+		theta_i = std::max(theta_i, 0.0);
+		theta_v = std::max(theta_v, 0.0);
+
 		// Check is the angular configuration is above the hemisphere
 		if(theta_i > PI2 || theta_v > PI2) {
 			RGB[0] = 0.0;
@@ -207,6 +212,8 @@ public:
 
 		// If the domain of def of one phi is [-pi .. pi] you need to convert it
 		// to the domain [0 .. 2pi]
+		phi_i = fmod(phi_i, M_2PI);
+		phi_v = fmod(phi_v, M_2PI);
 		if(phi_i < 0.0) {
 			phi_i = M_2PI + phi_i;
 		}
-- 
2.43.0


From 18d8ddd7e60f2a96935c248c52eed107c8de331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 091/164] fix: unreadable or truncated UTIA files were accepted

---
 sources/plugins/data_io/utia.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 890ba0a..a68e588 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -22,6 +22,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <stdexcept>
 #include <fstream>
 #include <cstdio>
 #include <cstdlib>
@@ -327,7 +328,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+		if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+			delete result;
+			throw std::runtime_error("unable to load the data as an UTIA EXR file");
+		}
+		if(W != NPI*NTI || H != NPV*NTV) {
+			delete[] temp;
+			delete result;
+			throw std::runtime_error("an UTIA EXR file must be 288x288 pixels");
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -345,6 +354,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
 		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input) {
+			delete result;
+			throw std::runtime_error("premature end of UTIA file");
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From 41ed2477e29197ecd483b2806d55e007161aa127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 092/164] fix: BRDF slice lookups on and outside the border

---
 sources/plugins/data_io/slice.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..6d4caa3 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -14,6 +14,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <algorithm>
 
 #include "EXR_IO.h"
 
@@ -173,17 +174,16 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
-					return res;
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					return vec::Zero(3);
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			const int i  = std::min<int>(floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width-1);
+			const int j  = std::min<int>(floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From 726346c9876e37f9f37468d159465e46851e10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 093/164] fix: BRDF slices did not report their domain

---
 sources/plugins/data_io/slice.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 6d4caa3..e86611f 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -75,7 +75,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
@@ -104,8 +103,8 @@ class BrdfSlice : public data {
           in_param == params::RETRO_TL_TVL_PROJ_DPHI;
 
 			// Update the domain
-			_max = max();
-			_min = min();
+			_max = domain_max();
+			_min = domain_min();
 		}
 
 		BrdfSlice(const arguments& args)
@@ -201,7 +200,7 @@ class BrdfSlice : public data {
   private:
 
 		// Get min and max input space values
-		vec min() const
+		vec domain_min() const
 		{
 			vec res(parametrization().dimX());
 
@@ -229,7 +228,7 @@ class BrdfSlice : public data {
 			}
 			return res ;
 		}
-		vec max() const
+		vec domain_max() const
 		{
 			vec res(parametrization().dimX());
 
-- 
2.43.0


From 783b08d6bcaee22d57295b8a8fadbe898bf2eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 094/164] fix: unreadable BRDF slices were accepted

---
 sources/plugins/data_io/slice.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index e86611f..0edec9c 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -14,6 +14,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <stdexcept>
 #include <algorithm>
 
 #include "EXR_IO.h"
@@ -109,7 +110,7 @@ class BrdfSlice : public data {
 
 		BrdfSlice(const arguments& args)
         : BrdfSlice(args, 512, 512, 1,
-                    new double[3 * 512 * 512])
+                    new double[3 * 512 * 512]())
     {
     }
 
@@ -272,7 +273,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data))
+        throw std::runtime_error("unable to load the data as a BRDF slice");
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
-- 
2.43.0


From c938243b31f571ee12ed813bc7a9d22f335b042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 095/164] fix: invalid MERL files terminated the program or
 were accepted

---
 sources/plugins/data_io/merl.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..f6f9a05 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -32,6 +32,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <stdexcept>
 #include <algorithm>
 
 #define BRDF_SAMPLING_RES_THETA_H  90
@@ -427,6 +428,10 @@ static bool read_brdf(std::istream& input, double* &brdf)
 {
 		int dims[3];
     input.read((char *) &dims, sizeof dims);
+		if (!input)
+		{
+        return false;
+		}
 		int n = dims[0] * dims[1] * dims[2];
 		if (n != BRDF_SAMPLING_RES_THETA_H *
         BRDF_SAMPLING_RES_THETA_D *
@@ -438,7 +443,7 @@ static bool read_brdf(std::istream& input, double* &brdf)
 
     input.read((char *) brdf, 3 * n * sizeof(double));
 
-		return true;
+		return !input.fail();
 }
 
 
@@ -455,7 +460,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        throw std::runtime_error("unable to load the data as a MERL file");
 		}
 
     return result;
-- 
2.43.0


From 04fecfb0069bbd89515228ed5244678c9bf97bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 096/164] fix: truncated ASTM files were read forever

---
 sources/plugins/data_io/astm.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..b3cceb3 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <cmath>
 #include <utility>
+#include <memory>
+#include <stdexcept>
 
 namespace alta {
 
@@ -148,19 +150,22 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     auto params = compute_parameters(vars);
 
     // Check data size from header
-    assert(header.is_defined("NUM_POINTS"));
-    int size = header.get_int("NUM_POINTS", 0);
+    int size = header.get_int("NUM_POINTS", -1);
+    if(size < 0 || vars.empty()) {
+        throw std::runtime_error("invalid ASTM file header");
+    }
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-    double* data = new double[size * n];
+    std::shared_ptr<double> data(new double[size * n],
+                                 std::default_delete<double[]>());
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if(!std::getline(input, line)) {
+	        throw std::runtime_error("premature end of ASTM file");
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
@@ -169,11 +174,14 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            stream >> data.get()[i + j];
+        }
+        if(!stream) {
+            throw std::runtime_error("invalid sample in ASTM file");
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, data);
 }
 
 }
-- 
2.43.0


From 72e939e3eb3ac41c5da8d4dac7f7bf9408ba6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 097/164] fix: RBF interpolants returned uninitialised samples
 and saved nothing

---
 sources/plugins/data_interpolants/rbf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index eb9de29..59d1cb3 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -122,13 +122,13 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename);
 		}
 
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id);
 		}
 		virtual vec operator[](int i) const
 		{
-- 
2.43.0


From 0c2c0228cf544dcb7fd564f83bc85d3b92aec7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 098/164] fix: grids were built from uninitialised
 parametrizations and sizes

---
 sources/plugins/data_interpolants/grid.cpp | 122 +++++++++++----------
 1 file changed, 67 insertions(+), 55 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..0b3a9af 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -71,7 +71,7 @@ static vec get_min(const params::input& param) {
          break;
 
       default:
-         return res;
+         return vec();
          break;
    }
    return res;
@@ -127,7 +127,7 @@ static vec get_max(const params::input& param) {
          break;
 
       default:
-         return res;
+         return vec();
          break;
    }
    return res;
@@ -152,63 +152,26 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
-      BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+      BrdfGrid(const parameters& params, const std::vector<int>& sizes)
+        : vertical_segment(params, number_of_nodes(sizes)), _size(sizes)
       {
-         initialize(args);
-      }
-
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
-
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
-
-         if(args.is_defined("PARAM_IN")) {
-            in_param = params::parse_input(args["PARAM_IN"]);
-         } else if(args.is_defined("param")) {
-            in_param = params::parse_input(args["param"]);
+         _min = get_min(params.input_parametrization());
+         _max = get_max(params.input_parametrization());
+
+         // Set the abscissa data
+         vec x = vec::Zero(params.dimX() + params.dimY());
+         for(int n=0; n<size(); ++n) {
+            get_abscissa(n, x);
+            set(n, x);
          }
-         nX = params::dimension(in_param);
-
-         if(args.is_defined("PARAM_OUT")) {
-            out_param = params::parse_output(args["PARAM_OUT"]);
-         }
-         nY = params::dimension(out_param);
+      }
 
-         // Get the grid size, by default use an 10^dimX grid
+      static int number_of_nodes(const std::vector<int>& sizes) {
          int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
-
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
+         for(const int n : sizes) {
+            N *= n;
          }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
-         }
-
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
+         return N;
       }
 
       inline int get_index(const vec& x) const {
@@ -355,11 +318,60 @@ class BrdfGrid : public vertical_segment {
       }
 };
 
+// Return a grid for the parametrization and sizes requested in ARGS, or NULL
+// when there is no such grid.  What is missing from ARGS comes from DEFAULTS.
+static BrdfGrid* new_grid(const parameters& defaults, const arguments& args)
+{
+   // Allow to load a different parametrization depending on the
+   // parameters provided.
+   params::input in_param = defaults.input_parametrization();
+   if(args.is_defined("PARAM_IN")) {
+      in_param = params::parse_input(args["PARAM_IN"]);
+   } else if(args.is_defined("param")) {
+      in_param = params::parse_input(args["param"]);
+   } else if(in_param == params::UNKNOWN_INPUT) {
+      in_param = params::STARK_2D;
+   }
+
+   params::output out_param = defaults.output_parametrization();
+   if(args.is_defined("PARAM_OUT")) {
+      out_param = params::parse_output(args["PARAM_OUT"]);
+   } else if(out_param == params::UNKNOWN_OUTPUT) {
+      out_param = params::RGB_COLOR;
+   }
+
+   const int nX = get_min(in_param).size();
+   const int nY = params::dimension(out_param);
+   if(nX == 0 || nY <= 0) {
+      std::cerr << "<<ERROR>> data_grid does not support the parametrization "
+                << params::get_name(in_param) << " -> "
+                << params::get_name(out_param) << std::endl;
+      return NULL;
+   }
+
+   // Get the grid size, by default use an 10^dimX grid
+   std::vector<int> sizes(nX, 10);
+   if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+      sizes = args.get_vec<int>("grid-size");
+   }
+   bool valid = (int)sizes.size() == nX;
+   for(const int n : sizes) {
+      valid = valid && n > 0;
+   }
+   if(!valid) {
+      std::cerr << "<<ERROR>> data_grid needs " << nX
+                << " positive grid sizes" << std::endl;
+      return NULL;
+   }
+
+   return new BrdfGrid(parameters(nX, nY, in_param, out_param), sizes);
+}
+
 ALTA_DLL_EXPORT data* provide_data(size_t size,
                                    const parameters& params,
                                    const arguments& args)
 {
-    return new BrdfGrid(size, params, args);
+    return new_grid(params, args);
 }
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input,
-- 
2.43.0


From fc670f168902f62e5b82cdd8a8d5c6e36ed66ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 099/164] fix: grid lookups on and outside the border read out
 of bounds

---
 sources/plugins/data_interpolants/grid.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 0b3a9af..517d4b4 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -15,6 +15,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -193,7 +194,8 @@ class BrdfGrid : public vertical_segment {
 
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            const double t = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            k[i] = (t > 0.0) ? (int)std::min<double>(t, std::max(_size[i]-2, 0)) : 0;
          }
          return k;
       }
@@ -222,7 +224,7 @@ class BrdfGrid : public vertical_segment {
          // Evaluate the abscissa from the vector indices and
          // the min and max. The grid exactly map [0..1]
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / (_size[i]-1);
+            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / std::max(_size[i]-1, 1);
          }
       }
 
@@ -304,12 +306,9 @@ class BrdfGrid : public vertical_segment {
                auto calpha =  (bitset) ? alphas[i] : 1.0-alphas[i];
 
                alpha *= calpha;
-               cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
+               cid_s = cid_s*_size[i] + ((bitset && _size[i] > 1) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
-               cid_s = 0;
-
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
                                                parametrization().dimY());
          }
-- 
2.43.0


From c3e4cd329c82d675fdeaf4750ea492d59e5bee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 100/164] fix: saved grids could not be loaded

---
 sources/plugins/data_interpolants/grid.cpp | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 517d4b4..6b1aac3 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -16,6 +16,8 @@
 #include <cstdlib>
 #include <cmath>
 #include <algorithm>
+#include <memory>
+#include <stdexcept>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -238,7 +240,7 @@ class BrdfGrid : public vertical_segment {
 
          save_header(file);
 
-         file << std::setprecision(std::numeric_limits<double>::digits10);
+         file << std::setprecision(std::numeric_limits<double>::max_digits10);
          for(int i=0; i < size(); ++i)
          {
             vec x = get(i);
@@ -378,19 +380,17 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input,
 {
     arguments header = arguments::parse_header(input);
 
-#ifdef __GNUC__
-# warning FIXME we are not returning a "BrdfGrid"
-#endif
-    // We should probably rewrite this class as a transformation from 'data'
-    // to 'data'.
+    std::unique_ptr<data> rows(load_data_from_text(input, header));
+    std::unique_ptr<BrdfGrid> result(new_grid(parameters(), header));
+    if(!result || result->size() != rows->size()
+       || result->parametrization().dimX() != rows->parametrization().dimX()
+       || result->parametrization().dimY() != rows->parametrization().dimY()) {
+        throw std::runtime_error("unable to load the data as a grid");
+    }
 
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
+    for(int i=0; i<rows->size(); ++i) {
+        result->set(i, rows->get(i));
+    }
 
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
-
-    return load_data_from_text(input, header);
+    return result.release();
 }
-- 
2.43.0


From 4a8583142463133bb0984a18dd9c140b3930148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 101/164] fix: grids crashed on unknown parametrizations

---
 sources/plugins/data_interpolants/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 6b1aac3..9a8fcaf 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -26,7 +26,7 @@ using namespace alta;
 
 static vec get_min(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res(std::max(params::dimension(param), 0));
    switch(param)
    {
       // 1D Parametrizations
@@ -82,7 +82,7 @@ static vec get_min(const params::input& param) {
 
 static vec get_max(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res(std::max(params::dimension(param), 0));
    switch(param)
    {
       // 1D Parametrizations
-- 
2.43.0


From 303f5ef4437525058fe7fd467572586cc822b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 102/164] fix: unsupported requests terminated the program
 instead of throwing

---
 sources/core/common.h            | 5 +++--
 sources/core/function.cpp        | 2 +-
 sources/core/params.cpp          | 2 +-
 sources/core/plugins_manager.cpp | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/sources/core/common.h b/sources/core/common.h
index af8c87e..ad52cbd 100644
--- a/sources/core/common.h
+++ b/sources/core/common.h
@@ -11,6 +11,7 @@
 
 #pragma once
 
+#include <stdexcept>
 #include <vector>
 #include <iostream>
 #include <cassert>
@@ -118,12 +119,12 @@ static bool close_to(const T a, const T b, const T epsilon = 1E-7)
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __FUNCDNAME__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::runtime_error("not implemented")
 #else
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __PRETTY_FUNCTION__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::runtime_error("not implemented")
 #endif
 
 // Mathematical definition not provided on the Window plateform
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 45c7c87..e35600b 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -486,7 +486,7 @@ compound_parameters(const std::vector<ptr<nonlinear_function> >& functions)
                                       result.input_parametrization(),
                                       output);
         else if (result.output_parametrization() != output)
-            abort();
+            throw std::runtime_error("functions have different output parametrizations");
     }
 
     return result;
diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index de1a189..869d6b1 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -397,7 +397,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 		default:
 			std::cerr << "<<ERROR>> Transformation not implemented, " << get_name(intype) << " " << __FILE__ << ":" << __LINE__ << std::endl;
-			throw;
+			throw std::runtime_error("transformation not implemented");
 			break;
 	}
 
diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index fd757c8..19deb33 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -613,7 +613,7 @@ void plugins_manager::check_compatibility( ptr<data>& d,
 
   if(f->parametrization().dimY() != d->parametrization().dimY())
   {
-    abort();
+    throw std::runtime_error("function and data have different output dimensions");
     // FIXME: Used to be this:
     // f->setDimY(d->parametrization().dimY());
   }
-- 
2.43.0


From 66f74f94696e861bd764b7440ee6857202e2cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 103/164] fix: tools were aborted by errors they did not catch

---
 sources/softs/brdf2brdf/main.cpp        | 6 ++++++
 sources/softs/brdf2data/main.cpp        | 6 ++++++
 sources/softs/brdf2gnuplot/main.cpp     | 6 ++++++
 sources/softs/data2brdf/main.cpp        | 6 ++++++
 sources/softs/data2data/main.cpp        | 6 ++++++
 sources/softs/data2moments/main.cpp     | 6 ++++++
 sources/softs/data2stats/data2stats.cpp | 6 ++++++
 sources/softs/fit2stat/fit2stat.cpp     | 6 ++++++
 8 files changed, 48 insertions(+)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..efb6de6 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -33,6 +33,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 	
@@ -68,3 +69,8 @@ int main(int argc, char** argv)
 
 	return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..cd563ac 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -35,6 +35,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
    arguments args(argc, argv) ;
 
@@ -129,3 +130,8 @@ int main(int argc, char** argv)
 
    return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..357c6ba 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -28,6 +28,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv);
 
@@ -223,3 +224,8 @@ int main(int argc, char** argv)
 
 	return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..6675d59 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -65,6 +65,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
     arguments args(argc, argv) ;
 
@@ -178,3 +179,8 @@ int main(int argc, char** argv)
 
     return 0 ;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 908639b..3ab015b 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -288,6 +288,7 @@ static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 
@@ -412,3 +413,8 @@ int main(int argc, char** argv)
 
 	return EXIT_SUCCESS;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..87dea23 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -43,6 +43,7 @@
 using namespace alta;
 
 int main(int argc, char** argv)
+try
 {
 	arguments args(argc, argv) ;
 
@@ -354,3 +355,8 @@ int main(int argc, char** argv)
 		return 1;
 	}
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1744653..41d18d1 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -468,6 +468,7 @@ void fastWeightedErrors( Eigen::ArrayXXd const & o_data_y,
  *  regarding the distance to another data file.
  */
 int main(int argc, char* argv[])
+try
 {
 
    arguments args(argc, argv) ;
@@ -586,3 +587,8 @@ int main(int argc, char* argv[])
 
    return EXIT_SUCCESS;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 2a3a080..0d70de1 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -413,6 +413,7 @@ void fastWeightedErrors( Eigen::ArrayXXd const & o_data_y,
 
 int 
 main(int argc, char* argv[])
+try
 {
 
   arguments args(argc, argv) ;
@@ -689,3 +690,8 @@ main(int argc, char* argv[])
 
   return EXIT_SUCCESS;
 }
+catch(const std::exception& e)
+{
+	std::cerr << "<<ERROR>> " << e.what() << std::endl;
+	return EXIT_FAILURE;
+}
-- 
2.43.0


From 7d5b9ffb00ee17a3ca3c1c9c8d1508860309feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 104/164] fix: tools crashed or succeeded when they could not
 do what was asked

---
 sources/softs/brdf2brdf/main.cpp    |  5 +++++
 sources/softs/brdf2data/main.cpp    |  3 ++-
 sources/softs/brdf2gnuplot/main.cpp | 11 +++++++++++
 sources/softs/data2brdf/main.cpp    | 10 ++++++++--
 sources/softs/data2data/main.cpp    |  3 ++-
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index efb6de6..4735287 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,6 +63,11 @@ try
 
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot open the function file" << std::endl;
+        return 1;
+    }
 
     // Save it
     f->save(args["output"], args) ;
diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index cd563ac..a805f7b 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -91,7 +91,7 @@ try
       return 1;
    }
 
-   if(d && f != NULL)
+   if(d && d->size() > 0 && d->parametrization().dimY() == f->parametrization().dimY())
    {
       const bool output_dif = args.is_defined("export-diff");
 
@@ -126,6 +126,7 @@ try
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1;
    }
 
    return 0 ;
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 357c6ba..981baa5 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -89,6 +89,12 @@ try
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+		if(!d || d->parametrization().dimY() != f->parametrization().dimY())
+		{
+			std::cerr << "<<ERROR>> the function cannot be evaluated on this data" << std::endl;
+			return 1;
+		}
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
@@ -221,6 +227,11 @@ try
 		}
 			file.close();
 	}
+	else
+	{
+		std::cerr << "<<ERROR>> neither a data file nor a polar plot is requested" << std::endl;
+		return 1;
+	}
 
 	return 0 ;
 }
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index 6675d59..0fb1fc0 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -122,11 +122,17 @@ try
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
+    if(!d)
+    {
+        std::cerr << "<<ERROR>> cannot load the data file" << std::endl;
+        return 1;
+    }
+
     ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
 
-    if(!f || !d)
+    if(!f)
     {
-        std::cerr << "<<ERROR>> no function or data object correctly defined" << std::endl;
+        std::cerr << "<<ERROR>> no function object correctly defined" << std::endl;
         return 1;
     }
 
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 3ab015b..8873edc 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -360,7 +360,8 @@ try
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl;
+		return EXIT_FAILURE;
 	}
 
 
-- 
2.43.0


From 6daef18a35b1a4394d546a2f53c400805d87fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 105/164] fix: data converted to the parametrization of the
 function was empty

---
 sources/core/data.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index cb35c9b..d940422 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -149,6 +149,22 @@ class data_params : public data
       //TODO
       //clustering<data>(d, _nY, d->parametrization(), new_param, _data);
 
+      const int dimX = parametrization().dimX();
+      const int dimY = parametrization().dimY();
+      _min = vec::Constant(dimX,  std::numeric_limits<double>::max());
+      _max = vec::Constant(dimX, -std::numeric_limits<double>::max());
+      for(int i=0; i<d->size(); ++i)
+      {
+        const vec x = d->get(i);
+        vec sample(dimX + dimY);
+        params::convert(&x[0], d->parametrization().input_parametrization(),
+                        new_param, &sample[0]);
+        sample.tail(dimY) = x.segment(d->parametrization().dimX(), dimY);
+        _min = _min.cwiseMin(sample.head(dimX));
+        _max = _max.cwiseMax(sample.head(dimX));
+        _data.push_back(sample);
+      }
+
       std::cout << "<<INFO>> clustering left " << _data.size() << "/" << d->size() << " elements" << std::endl;
       save(std::string("cluster.gnuplot"));
     }
@@ -166,7 +182,7 @@ class data_params : public data
 
     virtual void set(int i, const vec& x)
     {
-      this->set(i, x);
+      _data[i] = x;
     }
 
   protected: // data
-- 
2.43.0


From 48ce6be9c9cde866129837636d33e0cc466edf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 106/164] fix: functions were reported as saved when they were
 not

---
 sources/core/function.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index e35600b..94c96c1 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -55,13 +55,16 @@ void function::save(const std::string& filename, const arguments& args) const
 	bool const is_shader   = args["export"] == "shader" || is_explorer;
 	bool const is_matlab   = args["export"] == "matlab";
 
-	// Open the file
-	std::ofstream file(filename.c_str());
-	if(!file.is_open())
+	if(!is_alta && !is_cpp && !is_shader && !is_matlab)
 	{
-		std::cerr << "<<ERROR>> unable to open output file for writing" << std::endl;
+		throw std::invalid_argument("unknown export format \"" + args["export"] + "\"");
 	}
 
+	// Open the file
+	std::ofstream file;
+	file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+	file.open(filename.c_str());
+
 	// If the export is the alta format, use the maximum precision formatting
 	if(is_alta)
 	{
@@ -123,6 +126,8 @@ void function::save(const std::string& filename, const arguments& args) const
 	{
 		file << "::end shader" << std::endl;
 	}
+
+	file.close();
 }
 		
 //! \brief save the header of the output function file. The header should
-- 
2.43.0


From 9660a855dd9d01e0cf56ca52308a9cbb37bd43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 107/164] fix: data were reported as saved when they were not

---
 sources/plugins/data_interpolants/grid.cpp |  2 +-
 sources/plugins/data_io/EXR_IO.h           | 29 +++++++++++++++-------
 sources/plugins/data_io/merl.cpp           | 12 +++++----
 sources/plugins/data_io/slice.cpp          |  3 ++-
 sources/plugins/data_io/utia.cpp           |  9 +++++--
 5 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 9a8fcaf..1dfd769 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -236,7 +236,7 @@ class BrdfGrid : public vertical_segment {
 
          file.exceptions(std::ios_base::failbit);
          file.open(filename.c_str(), std::ios_base::trunc);
-         file.exceptions(std::ios_base::goodbit);
+         file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
          save_header(file);
 
diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..ab2e521 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -10,6 +10,7 @@
 #pragma once
 
 // STL includes
+#include <fstream>
 #include <stdexcept>
 #include <cassert>
 
@@ -48,7 +49,7 @@ class t_EXR_IO
 
 			/* Check the different part of loading */
 			int _r = -1;
-			const char* _err;
+			const char* _err = "unknown error";
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
@@ -172,18 +173,28 @@ class t_EXR_IO
 				header.requested_pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of output image to be stored in .EXR
 			}
 
-			const char* err;
-			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
-			if (ret != TINYEXR_SUCCESS) {
-				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
-				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
-			}
+			const char* err = "unknown error";
+			unsigned char* memory = NULL;
+			size_t size = SaveEXRImageToMemory(&image, &header, &memory, &err);
 
 			free(header.channels);
 			free(header.pixel_types);
 			free(header.requested_pixel_types);
-			return true ;
+
+			bool saved = size > 0;
+			if (saved) {
+				std::ofstream file(filename, std::ios_base::out | std::ios_base::binary);
+				file.write((const char*)memory, size);
+				file.close();
+				saved = file.good();
+				err = "write error";
+				free(memory);
+			}
+			if (!saved) {
+				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
+				std::cerr << "<<ERROR>> " << err << std::endl;
+			}
+			return saved;
 		}
 };
 
diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index f6f9a05..be98ab5 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -25,6 +25,7 @@
 
 *****************************************************************************/
 
+#include <fstream>
 #include <core/data.h>
 #include <core/common.h>
 #include <core/args.h>
@@ -113,7 +114,9 @@ public: // methods
 
 	void save(const std::string& filename) const
 	{
-		FILE *f = fopen(filename.c_str(), "wb");
+		std::ofstream f;
+		f.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+		f.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
@@ -122,10 +125,9 @@ public: // methods
 
 		const int n = dims[0]*dims[1]*dims[2];
 
-		fwrite(dims, sizeof(int), 3, f);
-		fwrite(brdf, sizeof(double), 3*n, f);
-
-		fclose(f);
+		f.write((const char*)dims, sizeof(dims));
+		f.write((const char*)brdf, 3*n*sizeof(double));
+		f.close();
 	}
 
 	// Acces to data
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 0edec9c..9065dc1 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -8,6 +8,7 @@
    License, v. 2.0.  If a copy of the MPL was not distributed with this
    file, You can obtain one at http://mozilla.org/MPL/2.0/.  */
 
+#include <fstream>
 #include <core/common.h>
 #include <core/data.h>
 
@@ -123,7 +124,7 @@ class BrdfSlice : public data {
 		{
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
-				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::runtime_error("unable to save image file");
 			}
 		}
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index a68e588..d42f733 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -138,11 +138,16 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+	  		bool saved = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
+			if(!saved)
+				throw std::runtime_error("unable to save image file");
 		} else {
-			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
+			std::ofstream stream;
+			stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+			stream.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
+			stream.close();
 		}
 	}
 
-- 
2.43.0


From 907f74be5e4265a790b78af74fc543883565d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 108/164] fix: tools reported success when their output was not
 written

---
 sources/softs/brdf2gnuplot/main.cpp     | 8 ++++++--
 sources/softs/data2data/main.cpp        | 3 ++-
 sources/softs/data2moments/main.cpp     | 4 +++-
 sources/softs/data2stats/data2stats.cpp | 4 +++-
 sources/softs/fit2stat/fit2stat.cpp     | 4 +++-
 5 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 981baa5..f794b5a 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -96,7 +96,9 @@ try
 		}
 
 		// Create output file now that we are sure that needed data are loaded
-		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		std::ofstream file;
+		file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+		file.open(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
 
 
@@ -185,7 +187,9 @@ try
 	else if(args.is_defined("polar-plot"))
 	{
 		// Create output file
-		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		std::ofstream file;
+		file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+		file.open(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
 
 		vec spherical(4);
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 8873edc..2f58cbb 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -403,9 +403,10 @@ try
       try
       {
           std::ofstream out;
-          out.exceptions(std::ios_base::failbit);
+          out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
           out.open(args["output"]);
           save_data_as_binary(out, *d_out);
+          out.close();
       }
       CATCH_FILE_IO_ERROR(args["output"]);
   }
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 87dea23..43afcf6 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -94,7 +94,9 @@ try
 	}
 
 	// Create output file
-	std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+	std::ofstream file;
+	file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+	file.open(args["output"].c_str(), std::ios_base::trunc);
 
 	if(d)
 	{
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 41d18d1..b1892ab 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -576,8 +576,10 @@ try
             fwriter << "MSE :"  << mse       << std::endl;
             fwriter << "RMSE :" << rmse      << std::endl;
             fwriter << std::endl;
+            fwriter.close();
+         }
 
-         } else {
+         if(!fwriter.good()) {
             std::cerr << "<<ERROR>> Could not save metrics to "
                       << output_filename << std::endl;
             return EXIT_FAILURE;
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 0d70de1..50529e7 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -663,8 +663,10 @@ try
         fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
+        fwriter.close();
       }
-      else
+
+      if( !fwriter.good() )
       {
         std::cerr << "<<ERROR>> Could not save metrics to " << output_filename << std::endl;
         return EXIT_FAILURE;
-- 
2.43.0


From 5e02586185060f50bdf1f0485e45630c152a407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 109/164] fix: data2data ignored unknown parametrization names

---
 sources/softs/data2data/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 2f58cbb..97f9ec1 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -114,6 +114,13 @@ static parameters compute_parameters(const data& d_in,
 {
     params::input param = params::parse_input(args["param"]);
 
+    if(param == params::UNKNOWN_INPUT
+       && !args["param"].empty() && args["param"] != "UNKNOWN_INPUT")
+    {
+        std::cerr << "<<ERROR>> unknown parametrization \"" << args["param"] << "\"" << std::endl;
+        exit(EXIT_FAILURE);
+    }
+
     if(param == params::UNKNOWN_INPUT
        && d_in.parametrization().input_parametrization() != params::UNKNOWN_INPUT)
     {
-- 
2.43.0


From 39e2eff2fb5da20df4d06495d56b722fb8c4fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 110/164] fix: data2data replaced the samples it left out by
 null samples

---
 sources/softs/data2data/main.cpp | 33 ++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 97f9ec1..bc39134 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -146,8 +146,10 @@ static parameters compute_parameters(const data& d_in,
 // Convert D_IN to D_OUT without doing any interpolation.  That is, call the
 // 'get' method of D_IN to grab its 'x' and 'y' values, and write those to
 // D_OUT.  When ALL_VALUES is true, disable filtering of values that are not
-// in the definition domain.
-static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
+// in the definition domain.  When KEEP_INDICES is true, samples keep their
+// index; otherwise the samples that are left out leave no gap in D_OUT.
+static void convert_vertical_segment(ptr<data> d_in, ptr<data>& d_out,
+                                     bool keep_indices,
                                      bool verbose = false,
                                      bool all_values = false)
 {
@@ -164,7 +166,13 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
     alta::timer save_timer;
     save_timer.start();
 
+    if(d_in->size() > d_out->size())
+    {
+        throw std::runtime_error("the output data cannot hold all the input samples");
+    }
+
     unsigned int nb_invalid_configs = 0;
+    int nb_samples = 0;
     vec temp(d_out->parametrization().dimX() + d_out->parametrization().dimY());
     for(int i=0; i<d_in->size(); ++i)
     {
@@ -192,7 +200,8 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                                 d_out->parametrization().dimY(),
                                 &temp[d_out->parametrization().dimX()]);
                 // SAVING THE INVALID CONFIGURATION
-                d_out->set(i, temp);
+                d_out->set(keep_indices ? i : nb_samples, temp);
+                ++nb_samples;
             }
 
         }
@@ -204,8 +213,20 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                             d_out->parametrization().output_parametrization(),
                             d_out->parametrization().dimY(),
                             &temp[d_out->parametrization().dimX()]);
-            d_out->set(i, temp);
+            d_out->set(keep_indices ? i : nb_samples, temp);
+            ++nb_samples;
+        }
+    }
+
+    if(!keep_indices && nb_samples < d_out->size())
+    {
+        // Leave out the samples that were not set
+        ptr<data> valid(new vertical_segment(d_out->parametrization(), nb_samples));
+        for(int i=0; i<nb_samples; ++i)
+        {
+            valid->set(i, d_out->get(i));
         }
+        d_out = valid;
     }
     save_timer.stop();
 
@@ -283,10 +304,10 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 }
 
 // Convert D_IN to D_OUT according to ARGS.
-static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
+static void convert(ptr<data> d_in, ptr<data>& d_out, const arguments& args)
 {
 	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
-      convert_vertical_segment(d_in, d_out,
+      convert_vertical_segment(d_in, d_out, args.is_defined("splat"),
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
 	else
-- 
2.43.0


From f1407cc7e0fb5dc202940eba54f4592487c3f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 111/164] fix: data2data overwrote the abscissas of grids

---
 sources/softs/data2data/main.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index bc39134..72ca5d9 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -303,10 +303,19 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
     }
 }
 
+// Return true if D comes with abscissas of its own, like grids do.
+static bool has_abscissas(const data& d)
+{
+    const int n = d.parametrization().dimX();
+    return d.size() > 1
+        && d.get(0).head(n) != d.get(d.size() - 1).head(n);
+}
+
 // Convert D_IN to D_OUT according to ARGS.
 static void convert(ptr<data> d_in, ptr<data>& d_out, const arguments& args)
 {
-	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
+	if((dynamic_pointer_cast<vertical_segment>(d_out) && !has_abscissas(*d_out))
+	   || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out, args.is_defined("splat"),
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
-- 
2.43.0


From feb832dc3ee27a4b074675054075c3bec162f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 112/164] fix: data2data was aborted by data that cannot be
 interpolated

---
 sources/softs/data2data/main.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 72ca5d9..e655fc8 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -258,8 +258,9 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 		}
 
     unsigned int stats_incorrect = 0;
+    unsigned int stats_failed = 0;
 
-#pragma omp parallel for reduction(+:stats_incorrect)
+#pragma omp parallel for reduction(+:stats_incorrect,stats_failed)
 		for(int i=0; i<d_out->size(); ++i)
 		{
         vec temp(d_in->parametrization().dimX());
@@ -280,7 +281,12 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
             params::convert(&cart[0], params::CARTESIAN,
                             d_in->parametrization().input_parametrization(),
                             &temp[0]);
-            y = d_in->value(temp);
+            // Exceptions must not leave the parallel region.
+            try {
+                y = d_in->value(temp);
+            } catch(const std::exception&) {
+                ++stats_failed;
+            }
         } else {
             ++stats_incorrect;
             y.setZero();
@@ -297,6 +303,10 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
         d_out->set(i, x);
 		}
 
+    if(stats_failed > 0) {
+        throw std::runtime_error("the input data cannot be interpolated");
+    }
+
     if(stats_incorrect > 0) {
         std::cerr << "<<DEBUG>> Number of incorrect configuration: "
                   << stats_incorrect << " / " << d_out->size() << std::endl;
-- 
2.43.0


From 7ee8ca7d536d886bd206abf9f77033a4ea7d9a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 113/164] fix: tools read past the samples that have too few
 dimensions

---
 sources/softs/brdf2data/main.cpp    | 4 +++-
 sources/softs/brdf2gnuplot/main.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index a805f7b..d603dad 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -91,7 +91,9 @@ try
       return 1;
    }
 
-   if(d && d->size() > 0 && d->parametrization().dimY() == f->parametrization().dimY())
+   if(d && d->size() > 0 && d->parametrization().dimY() == f->parametrization().dimY()
+      && (f->parametrization().input_parametrization() != params::UNKNOWN_INPUT
+          || d->parametrization().dimX() >= f->parametrization().dimX()))
    {
       const bool output_dif = args.is_defined("export-diff");
 
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index f794b5a..2563cb1 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -89,7 +89,9 @@ try
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
-		if(!d || d->parametrization().dimY() != f->parametrization().dimY())
+		if(!d || d->parametrization().dimY() != f->parametrization().dimY()
+		   || (f->parametrization().input_parametrization() == params::UNKNOWN_INPUT
+		       && d->parametrization().dimX() < f->parametrization().dimX()))
 		{
 			std::cerr << "<<ERROR>> the function cannot be evaluated on this data" << std::endl;
 			return 1;
-- 
2.43.0


From dfeab4d853b93b96e8cdc31a901d6569196b57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 114/164] fix: data2moments was aborted by unusable options

---
 sources/softs/data2moments/main.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 43afcf6..1112e12 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -32,6 +32,7 @@
 #include <core/plugins_manager.h>
 #include <core/vertical_segment.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <iostream>
@@ -143,7 +144,11 @@ try
 		if(args.is_defined("samples"))
 		{	
 			samples = args.get_vec<int>("samples");
-			assert(samples.size() == nX);
+			if(int(samples.size()) != nX || *std::min_element(samples.begin(), samples.end()) < 1)
+			{
+				std::cerr << "<<ERROR>> --samples needs one positive number per input dimension" << std::endl;
+				return 1;
+			}
 		}
 		else
 		{
@@ -157,7 +162,6 @@ try
 		if(args.is_defined("dim"))
 		{
 			dim = args.get_vec<int>("dim");
-			assert(dim.size() == 2);
 		}
 		else
 		{
@@ -165,6 +169,12 @@ try
 			dim.push_back(0);
 			dim.push_back(1);
 		}
+		if(dim.size() != 2 || *std::min_element(dim.begin(), dim.end()) < 0
+		   || *std::max_element(dim.begin(), dim.end()) >= nX)
+		{
+			std::cerr << "<<ERROR>> --dim needs two dimensions of the input space" << std::endl;
+			return 1;
+		}
 
 
 		// Get the minimum element of the dataset
-- 
2.43.0


From 0ce6c6a49b37192eeda1db7c60b4edcffcb6349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 115/164] fix: functions exported as alta had no header

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 94c96c1..f04a4eb 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -135,7 +135,7 @@ void function::save(const std::string& filename, const arguments& args) const
 //! the dimension of the fit. L2 and L_inf distance could be added here.
 void function::save_header(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		out << "#ALTA FUNC HEADER" << std::endl;
 		out << "#CMD " << args.get_cmd() << std::endl;
-- 
2.43.0


From c888235008b6028604f06589d97a72d1cc893ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 116/164] fix: function files written by brdf2brdf could not be
 loaded

---
 sources/softs/brdf2brdf/main.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 4735287..31f2211 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -69,8 +69,22 @@ try
         return 1;
     }
 
+    // The function file has to describe how the function was made: keep the
+    // command line found in the input.
+    std::ifstream file(args["input"].c_str());
+    arguments header = arguments::parse_header(file);
+    arguments save_args = arguments::create_arguments(header["CMD"]);
+    const char* options[] = { "input", "output", "export", "export-append" };
+    for(int i=0; i<4; ++i)
+    {
+        if(args.is_defined(options[i]))
+        {
+            save_args.update(options[i], args[options[i]]);
+        }
+    }
+
     // Save it
-    f->save(args["output"], args) ;
+    f->save(args["output"], save_args) ;
 
 	return 0 ;
 }
-- 
2.43.0


From 3871d5b1003b7f487db8703d1f91730fd7e63bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 117/164] fix: loading a file that is not an ASTM file crashed
 data_astm

---
 sources/plugins/data_io/astm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index b3cceb3..2acc2b4 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -147,7 +147,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
-    auto params = compute_parameters(vars);
 
     // Check data size from header
     int size = header.get_int("NUM_POINTS", -1);
@@ -155,6 +154,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         throw std::runtime_error("invalid ASTM file header");
     }
 
+    auto params = compute_parameters(vars);
+
     // Size of the data
     size_t n = params.dimX() + params.dimY();
     std::shared_ptr<double> data(new double[size * n],
-- 
2.43.0


From c4faf076cb00bbb99abb8dbd163985eebe2113e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 118/164] fix: exporting the Smith shadowing term as a shader
 aborted

---
 .../nonlinear_shadowing_smith/function.cpp    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 120697a..82d2c71 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -106,9 +106,6 @@ void smith::save_body(std::ostream& out, const arguments& args) const
 
     if(is_shader)
     {
-        std::cerr << " FINISH IMPLEMENTATION AT " << __FILE__ << " " << __LINE__ << std::endl;
-        assert(0);
-
         // Generate code for erf function
         // This code is the same as the one in common.hpp 
         out << "/** The Error function in GLSL **/" << std::endl;
@@ -121,13 +118,12 @@ void smith::save_body(std::ostream& out, const arguments& args) const
             << "\t const float a5 = 1.061405429;" << std::endl
             << "\t const float  p = 0.3275911;" << std::endl
             << "\t // Save the sign of a_x " << std::endl
-            << "\t int sign = 1;" << std::endl
-            << "\t if( a_x < 0 ) { sign = -1; }" << std::endl
-            << "\t const float x = abs( a_x); " << std::endl
-            << "\t const float t = 1.0 / (1.0 + p*x); " << std::endl
-            << "\t const float y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x);" << std::endl
-            << "\t return sign * y" << std::endl
-            
+            << "\t float sign = 1.0;" << std::endl
+            << "\t if( a_x < 0.0 ) { sign = -1.0; }" << std::endl
+            << "\t float x = abs( a_x); " << std::endl
+            << "\t float t = 1.0 / (1.0 + p*x); " << std::endl
+            << "\t float y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x);" << std::endl
+            << "\t return sign * y;" << std::endl
             << "}" << std::endl;
 
         out << std::endl;
@@ -137,6 +133,12 @@ void smith::save_body(std::ostream& out, const arguments& args) const
         out << "{" << std::endl;
         out << "\t const float SQRT_ONE_OVER_TWO_PI = 0.398942280401439;" << std::endl;
         out << "\t const float SQRT_2_OVER_2 = 0.70710678118655;" << std::endl;
+        out << "\t float s = length(vec2(dot(L, X), dot(L, Y)));" << std::endl;
+        out << "\t if( s == 0.0 ) { return vec3(1.0); }" << std::endl;
+        out << "\t vec3 r = dot(L, N) / (s * R);" << std::endl;
+        out << "\t vec3 e = vec3(erf(SQRT_2_OVER_2*r.x), erf(SQRT_2_OVER_2*r.y), erf(SQRT_2_OVER_2*r.z));" << std::endl;
+        out << "\t vec3 A = SQRT_ONE_OVER_TWO_PI * exp(-0.5*r*r) / r - 0.5 * (1.0 - e);" << std::endl;
+        out << "\t return 1.0 / (1.0 + A);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;        
     
-- 
2.43.0


From fdb04f33aa90bebc6cbf9cdc2f211f439fafa8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 119/164] fix: converting directions below the horizon aborted

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 869d6b1..ad2b136 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -426,7 +426,7 @@ static void half_vector(Real const *invec, Vector &half)
         half[2] = 0.;
 
     assert(half[2] <= 1.);
-    assert(half[2] >= 0.);
+    assert(half[2] >= -1.);
 }
 
 // Return true if X is essentially zero.  We have to resort to this hack
-- 
2.43.0


From c2dff8057b0fb797cc275825b999d8a316796041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 120/164] fix: comparing data of different output dimensions
 aborted

---
 sources/core/metrics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index c162d85..0fc043d 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -1,5 +1,7 @@
 #include "metrics.h"
 
+#include <stdexcept>
+
 using namespace alta;
 
 void errors::compute(const data* in,   const data* ref,
@@ -77,6 +79,10 @@ void errors::evaluate(const data* inp,
                       Eigen::MatrixXd& inp_y,
                       Eigen::MatrixXd& ref_y) {
 
+   if(inp->parametrization().dimY() != ref->parametrization().dimY()) {
+      throw std::invalid_argument("data with different output dimensions cannot be compared");
+   }
+
    // Temp variables
    vec ref_xy = vec::Zero(ref->parametrization().dimX() + ref->parametrization().dimY());
    vec ref_x  = vec::Zero(ref->parametrization().dimX());
-- 
2.43.0


From f836b23f73c2217e27194e89f3581fba623b905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 121/164] fix: do not pad the EXR files being read, which hid
 that their end is missing

---
 sources/plugins/data_io/EXR_IO.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index ab2e521..003bf3e 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -37,14 +37,13 @@ class t_EXR_IO
 		{
 			/* Convert the input std::istream into an unsigned char array */
 			std::vector<unsigned char> _memory;
-			size_t _n = 0, _m = 0;
-			while(input.good()) {
-				if(_n == _m) {
-					_m += 256;
-					_memory.resize(_m);
-				}
-
-				_memory[_n++] = (unsigned char)input.get();
+			char _c;
+			while(input.get(_c)) {
+				_memory.push_back((unsigned char)_c);
+			}
+			if(_memory.empty()) {
+				std::cerr << "<<ERROR>> Could not load EXR version from stream" << std::endl;
+				return false;
 			}
 
 			/* Check the different part of loading */
-- 
2.43.0


From e1a4e06b4aea280fa51c7346bbf5467c7203be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 122/164] fix: data_rbf refuses files without samples instead
 of crashing on them

---
 sources/plugins/data_interpolants/rbf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 59d1cb3..4370516 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -219,6 +219,9 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     // Load the data
     ptr<data> proxied = plugins_manager::load_data("vertical_segment",
                                                    input, args);
+    if(!proxied || proxied->size() == 0) {
+        throw std::runtime_error("no data to interpolate");
+    }
 
     return new rbf_interpolant(proxied);
 }
-- 
2.43.0


From 461f5c157acd01604b4142bec379bf1146aa69e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 123/164] fix: data_grid refuses an unknown output
 parametrization instead of aborting

---
 sources/plugins/data_interpolants/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 1dfd769..230ae90 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -342,7 +342,7 @@ static BrdfGrid* new_grid(const parameters& defaults, const arguments& args)
    }
 
    const int nX = get_min(in_param).size();
-   const int nY = params::dimension(out_param);
+   const int nY = (out_param != params::UNKNOWN_OUTPUT) ? params::dimension(out_param) : -1;
    if(nX == 0 || nY <= 0) {
       std::cerr << "<<ERROR>> data_grid does not support the parametrization "
                 << params::get_name(in_param) << " -> "
-- 
2.43.0


From f0eae9063c52e9f7a2ba9f61903783ce3b4e3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 124/164] fix: distances to empty data or data of another
 output dimension are refused, not aborts or stray reads

---
 sources/core/function.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index f04a4eb..72ad2e4 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -168,9 +168,24 @@ void function::save_call(std::ostream&, const arguments&) const
 
 }
 
+// Throw unless there is a distance between F and D.
+static void check_comparable(const function& f, const data& d)
+{
+	if(d.size() == 0)
+	{
+		throw std::invalid_argument("no data to compare the function to");
+	}
+	if(d.parametrization().dimY() != f.parametrization().dimY())
+	{
+		throw std::invalid_argument("the function and the data have different output dimensions");
+	}
+}
+
 //! \brief L2 norm to data.
 double function::L2_distance(const ptr<data>& d) const
 {
+	check_comparable(*this, *d);
+
 	double l2_dist = 0.0;
 	for(int i=0; i<d->size(); ++i)
 	{
@@ -194,7 +209,6 @@ double function::L2_distance(const ptr<data>& d) const
     l2_dist += std::pow(norm(y-value(x)), 2);
 	}
 
-  assert(d->size() > 0.);
 	l2_dist = std::sqrt(l2_dist / d->size());
 
 	return l2_dist;
@@ -203,6 +217,8 @@ double function::L2_distance(const ptr<data>& d) const
 //! \brief Linf norm to data.
 double function::Linf_distance(const ptr<data>& d) const
 {
+	check_comparable(*this, *d);
+
 	vec mean = vec::Zero(parametrization().dimY());
 	vec var  = vec::Zero(parametrization().dimY());
 
-- 
2.43.0


From 49dd5625e37bde42c82989b73f5e7f89ffabe781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 125/164] fix: arguments objects can be given to get_data and
 function.save in Python

---
 sources/python/alta.cpp       | 6 +++++-
 sources/python/wrapper_data.h | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..01e7240 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -186,6 +186,10 @@ static vec get_function_params(ptr<function>& f) {
 /* Save a function object to a file, without any argument option. This will save the function
  * object in ALTA's format.
  */
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
 static void save_function_without_args(const ptr<function>& f, const std::string& filename) {
    arguments args;
    f->save(filename, args);
@@ -314,7 +318,7 @@ inline void register_function(py::module& m) {
 		.def("value",    &function::value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..112fcd3 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -19,6 +19,9 @@ namespace py = pybind11;
 #include <core/ptr.h>
 #include <core/data.h>
 
+// Local includes
+#include "wrapper_args.h"
+
 using namespace alta;
 
 /* Create a data object from a plugin's name and the data filename. This
@@ -33,7 +36,7 @@ static ptr<data> load_data(const std::string& plugin_name,
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
-- 
2.43.0


From 2e2601a0e24bb344e023b82758a41b5bbf35d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 126/164] fix: indices and sizes given to vec and data objects
 are checked in Python

---
 sources/python/wrapper_data.h | 31 ++++++++++++++++++++++++++-----
 sources/python/wrapper_vec.h  |  3 +++
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index 112fcd3..f411cb2 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -47,17 +47,38 @@ static ptr<data> get_data(const std::string& plugin_name, size_t size,
   return plugins_manager::get_data(plugin_name, size, params);
 }
 
+/* Access to the samples and interpolated values of a data object. The C++
+ * methods do not check what they are given.
+ */
+static vec data_get(const data& d, int i) {
+   if(i < 0 || i >= d.size()) throw py::index_error();
+   return d.get(i);
+}
+static void data_set(data& d, int i, const vec& x) {
+   if(i < 0 || i >= d.size()) throw py::index_error();
+   if(x.size() < d.parametrization().dimX() + d.parametrization().dimY()) {
+      throw py::value_error("vector smaller than the samples of the data");
+   }
+   d.set(i, x);
+}
+static vec data_value(const data& d, const vec& x) {
+   if(x.size() != d.parametrization().dimX()) {
+      throw py::value_error("vector and input domain of the data have different sizes");
+   }
+   return d.value(x);
+}
+
 /* Register the `data` class to python
  */
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
-      .def("__getitem__", &data::get)
-      .def("__setitem__", &data::set)
+      .def("__getitem__", &data_get)
+      .def("__setitem__", &data_set)
       .def("__len__", &data::size)
       .def("size",  &data::size)
-      .def("get",   &data::get)
-      .def("set",   &data::set)
-      .def("value", &data::value)
+      .def("get",   &data_get)
+      .def("set",   &data_set)
+      .def("value", &data_value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
    m.def("get_data",  get_data);
diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4ef54e6..b0278b4 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -25,15 +25,18 @@ namespace py = pybind11;
 /* Specific function call to set a vector's element
  */
 static void vec_set_item(vec& x, int i, double a) {
+	if(i < 0 || i >= x.size()) throw py::index_error();
 	x[i] = a;
 }
 
 /* Operators on vec
  */
 static vec vec_add(const vec& a, const vec& b) {
+   if(a.size() != b.size()) throw py::value_error("vectors of different sizes");
    return a + b;
 }
 static vec vec_sub(const vec& a, const vec& b) {
+   if(a.size() != b.size()) throw py::value_error("vectors of different sizes");
    return a - b;
 }
 
-- 
2.43.0


From 2bb9f49bdc6d15f89c236ceacd59d9db8cb6f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 127/164] fix: Python functions report loads, parameters and
 points that do not fit

---
 sources/python/alta.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 01e7240..d049d48 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -82,15 +82,16 @@ static void load_from_file_with_args(const ptr<function>& func,
    std::ifstream file;
    file.open(filename.c_str()) ;
    if(!file.is_open()) {
-      std::cerr << "<<ERROR>> unable to open file \"" << filename << "\"" << std::endl ;
-      return;
+      throw std::runtime_error("unable to open file \"" + filename + "\"");
    }
 
    // Parse the associated header
    arguments header = arguments::parse_header(file);
 
    // Load the function stream
-   func->load(file);
+   if(!func->load(file)) {
+      throw std::runtime_error("unable to load the function from \"" + filename + "\"");
+   }
 }
 static void load_from_file(const ptr<function>& func, const std::string& filename) {
 
@@ -144,6 +145,13 @@ static ptr<function> mult_function(const ptr<function>& f1, const ptr<function>&
  *
  * TODO: Add the rational function interface
  */
+static vec function_value(const ptr<function>& f, const vec& x) {
+	if(x.size() != f->parametrization().dimX()) {
+		throw py::value_error("vector and input domain of the function have different sizes");
+	}
+	return f->value(x);
+}
+
 static void set_function_params(ptr<function>& f, const vec& v) {
 
 	// Try to set the parameter as a nonlinear function
@@ -152,11 +160,13 @@ static void set_function_params(ptr<function>& f, const vec& v) {
 		if(nf->nbParameters() == v.size()) {
 			nf->setParameters(v);
 		} else {
-			std::cerr << "<<ERROR>> Vector of params and function have different sizes." << std::endl;
+			throw py::value_error("vector of parameters and function have different sizes");
 		}
 		return;
 	}
 
+	throw std::runtime_error("the parameters of this function cannot be set");
+
 	// ptr<rational_function> rf = dynamic_pointer_cast<rational_function>(f);
 	// if(rf) {
 	// 	int np, nq;
@@ -315,7 +325,7 @@ inline void register_function(py::module& m) {
 		.def("__add__",  &add_function)
 		.def("__mul__",  &mult_function)
 		.def("__rmul__", &mult_function)
-		.def("value",    &function::value)
+		.def("value",    &function_value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
 		.def("save",     &save_function_with_args)
-- 
2.43.0


From c7f8c111c7193151b805bead3eb64e15d0c215ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 128/164] fix: Python conversions refuse dimensions that do not
 fit instead of reading or writing out of bounds

---
 sources/python/alta.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index d049d48..d63e336 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -227,8 +227,20 @@ static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
  * the command line arguments.
  * TODO: Add the command line arguments in the parameters
  */
+static void check_input_parametrization(const parameters& p)
+{
+    if(p.input_parametrization() == params::UNKNOWN_INPUT
+       || params::dimension(p.input_parametrization()) != (int)p.dimX())
+    {
+        throw py::value_error("unknown input parametrization, or not of the right dimension");
+    }
+}
+
 static ptr<data> data2data(const data* d_in, const parameters& target)
 {
+    check_input_parametrization(d_in->parametrization());
+    check_input_parametrization(target);
+
     auto delete_array = [](double* array)
     {
         delete[] array;
@@ -277,8 +289,16 @@ static ptr<data> data2data(const data* d_in, const parameters& target)
  */
 static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 	if(d->size() == 0) {
-		std::cerr << "<<ERROR>> Please provide a data object with a sample structure or load a data file with defined positions." << std::endl;
-		return;
+		throw py::value_error("Please provide a data object with a sample structure or load a data file with defined positions.");
+	}
+	if(f->parametrization().dimY() != d->parametrization().dimY()) {
+		throw py::value_error("the function and the data have different output dimensions");
+	}
+	if(f->parametrization().input_parametrization() != params::UNKNOWN_INPUT) {
+		check_input_parametrization(f->parametrization());
+		check_input_parametrization(d->parametrization());
+	} else if(f->parametrization().dimX() > d->parametrization().dimX()) {
+		throw py::value_error("the function cannot be evaluated on this data");
 	}
 
 	vec temp(f->parametrization().dimX());
-- 
2.43.0


From 0fa981de7b65c14ae82ec2a29669dbe8c0484951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 129/164] fix: None given to the Python fitters and conversions
 is refused instead of crashing

---
 sources/python/alta.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index d63e336..87fdb90 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -361,8 +361,10 @@ inline void register_function(py::module& m) {
 
 inline void register_fitter(py::module& m) {
 	py::class_<fitter, ptr<fitter>>(m, "fitter")
-		.def("fit_data", &fit_data_with_args)
-                .def("fit_data", &fit_data_without_args);
+		.def("fit_data", &fit_data_with_args,
+		     py::arg("data").none(false), py::arg("function").none(false), py::arg("args"))
+		.def("fit_data", &fit_data_without_args,
+		     py::arg("data").none(false), py::arg("function").none(false));
 	m.def("get_fitter",  plugins_manager::get_fitter);
 }
 
@@ -430,7 +432,10 @@ PYBIND11_MODULE(alta, m) {
     register_fitter(m);
 
     /* register `softs` */
-    m.def("data2data",  data2data);
-    m.def("data2stats", data2stats);
-    m.def("brdf2data",  brdf2data);
+    m.def("data2data",  data2data,
+          py::arg("data").none(false), py::arg("param"));
+    m.def("data2stats", data2stats,
+          py::arg("data").none(false), py::arg("ref").none(false));
+    m.def("brdf2data",  brdf2data,
+          py::arg("function").none(false), py::arg("data").none(false));
 }
-- 
2.43.0


From 39717e1facf13f672a00ef743a5d352ec641ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 130/164] fix: Python fits without arguments use the default
 options, not indeterminate ones

---
 sources/python/alta.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 87fdb90..677c3cb 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -212,6 +212,7 @@ static bool fit_data_without_args(const ptr<fitter>& _fitter,
                                   const ptr<data>& _data,
                                   ptr<function>& _func) {
    arguments args;
+   _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
 }
 
-- 
2.43.0


From 9760b89a280ca2f189a6f4904c62987be76524db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 131/164] fix: data_brdf_slice throws on samples of the wrong
 size instead of aborting

---
 sources/plugins/data_io/slice.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 9065dc1..bfe7c3c 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -156,7 +156,9 @@ class BrdfSlice : public data {
 
 		void set(int id, const vec& x)
 		{
-			assert(x.size() == parametrization().dimX() + parametrization().dimY());
+			if(x.size() != parametrization().dimX() + parametrization().dimY()) {
+				throw std::invalid_argument("data_brdf_slice: set");
+			}
 
 			_data[3*id + 0] = x[parametrization().dimX()+0];
 			_data[3*id + 1] = x[parametrization().dimX()+1];
-- 
2.43.0


From 50ff44b20c688b558871c3146a9a81b0376a3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 132/164] fix: evaluating a rational function without
 coefficients throws instead of crashing

---
 sources/core/rational_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index e877dfd..fbc0c61 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -607,6 +607,10 @@ vec rational_function::value(const vec& x) const
 
 	for(int k=0; k<_parameters.dimY(); ++k)
 	{
+		if(rs[k] == NULL)
+		{
+			throw std::runtime_error("the rational function has no coefficients");
+		}
 		res[k] = rs[k]->value(x)[0] ;
 	}
 	return res ;
-- 
2.43.0


From cb1cadbdd7c45c27aaf9dda277aff0906156bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 133/164] fix: Python function methods refuse None instead of
 crashing

---
 sources/python/alta.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 677c3cb..1866e0b 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -74,7 +74,7 @@ static ptr<function> load_function_with_args(const std::string& filename, const
  *
  * TODO: Add exceptions
  */
-static void load_from_file_with_args(const ptr<function>& func,
+static void load_from_file_with_args(function& func,
                                      const std::string& filename,
                                      const python_arguments& args) {
 
@@ -89,11 +89,11 @@ static void load_from_file_with_args(const ptr<function>& func,
    arguments header = arguments::parse_header(file);
 
    // Load the function stream
-   if(!func->load(file)) {
+   if(!func.load(file)) {
       throw std::runtime_error("unable to load the function from \"" + filename + "\"");
    }
 }
-static void load_from_file(const ptr<function>& func, const std::string& filename) {
+static void load_from_file(function& func, const std::string& filename) {
 
    python_arguments args;
    load_from_file_with_args(func, filename, args);
@@ -145,11 +145,11 @@ static ptr<function> mult_function(const ptr<function>& f1, const ptr<function>&
  *
  * TODO: Add the rational function interface
  */
-static vec function_value(const ptr<function>& f, const vec& x) {
-	if(x.size() != f->parametrization().dimX()) {
+static vec function_value(const function& f, const vec& x) {
+	if(x.size() != f.parametrization().dimX()) {
 		throw py::value_error("vector and input domain of the function have different sizes");
 	}
-	return f->value(x);
+	return f.value(x);
 }
 
 static void set_function_params(ptr<function>& f, const vec& v) {
@@ -196,13 +196,13 @@ static vec get_function_params(ptr<function>& f) {
 /* Save a function object to a file, without any argument option. This will save the function
  * object in ALTA's format.
  */
-static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+static void save_function_with_args(const function& f, const std::string& filename,
                                     const python_arguments& args) {
-   f->save(filename, args);
+   f.save(filename, args);
 }
-static void save_function_without_args(const ptr<function>& f, const std::string& filename) {
+static void save_function_without_args(const function& f, const std::string& filename) {
    arguments args;
-   f->save(filename, args);
+   f.save(filename, args);
 }
 
 /* Fitter interface to allow to launch fit with and without providing an
-- 
2.43.0


From 479b9059767a537c78d26f458bee740b563a0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 134/164] fix: nlopt fits end: absent bounds are infinite, NaN
 stops the search, the best parameters are kept

---
 .../plugins/nonlinear_fitter_nlopt/fitter.cpp | 71 ++++++++++++++-----
 .../plugins/nonlinear_fitter_nlopt/fitter.h   |  8 +--
 2 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..ca8286d 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -90,10 +90,27 @@ void df(double* fjac, const nonlinear_function* f, const data* d)
 	}
 }
 
+// The problem given to the optimizer, and the best parameters it evaluated
+struct nlopt_problem
+{
+	nonlinear_function* f;
+	const data* d;
+	nlopt_opt opt;
+	vec best;
+	double distance;
+};
+
 double f(unsigned n, const double* x, double* dy, void* dat)
 {
-	nonlinear_function* _f = (nonlinear_function*)(((void**)dat)[0]);
-	const data* _d = (const data*)(((void**)dat)[1]);
+	nlopt_problem* problem = (nlopt_problem*)dat;
+	nonlinear_function* _f = problem->f;
+	const data* _d = problem->d;
+
+	// Some optimizers loop forever on parameters that are not numbers
+	for(unsigned i=0; i<n; ++i)
+	{
+		if(std::isnan(x[i])) { nlopt_force_stop(problem->opt); return HUGE_VAL; }
+	}
 
 	// Update the parameters vector
 	vec _p(_f->nbParameters());
@@ -134,6 +151,13 @@ double f(unsigned n, const double* x, double* dy, void* dat)
 		df(dy, _f, _d);
 	}
 
+	// Keep the best parameters. Values that are not numbers are never the best
+	if(y < problem->distance)
+	{
+		problem->distance = y;
+		problem->best     = _p;
+	}
+
 	return y;
 }
 
@@ -238,6 +262,12 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	// Set the bounds to the parameters
 	vec p_min = nf->getParametersMin();
 	vec p_max = nf->getParametersMax();
+	for(int i=0; i<nf->nbParameters(); ++i)
+	{
+		// NlOpt marks the absence of a bound with an infinite value
+		if(p_min[i] <= -std::numeric_limits<double>::max()) { p_min[i] = -HUGE_VAL; }
+		if(p_max[i] >=  std::numeric_limits<double>::max()) { p_max[i] =  HUGE_VAL; }
+	}
 	nlopt_set_lower_bounds(opt, &p_min[0]);
 	nlopt_set_upper_bounds(opt, &p_max[0]);
 
@@ -250,17 +280,19 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 
 	//Cf. here : http://ab-initio.mit.edu/wiki/index.php/NLopt_Introduction#Termination_conditions
 
-	//Set by default 1e-4 as relative function tolerance
+	//Set by default 1e-4 as relative parameter tolerance, and a small relative
+	//function tolerance: the former is never met by a parameter that tends to 0
 	nlopt_set_xtol_rel(opt, 1e-4);
+	nlopt_set_ftol_rel(opt, 1e-10);
 
 	//Parse  other options related to stopping criterion
 	std::string const FUNC_TOLERANCE = "nlop-relative-function-tolerance";
 	if( args.is_defined(FUNC_TOLERANCE) )
 	{
-			double const new_func_tol = args.get_double(FUNC_TOLERANCE,1e-4);			
-			res = nlopt_set_xtol_rel(opt, new_func_tol );		
-			
-			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_xtol_rel"); }
+			double const new_func_tol = args.get_double(FUNC_TOLERANCE,1e-10);
+			res = nlopt_set_ftol_rel(opt, new_func_tol );
+
+			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_ftol_rel"); }
 	}
 
 	//Absolute Tolerance Function on a value
@@ -275,13 +307,16 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 
 
 	// Create the problem
-	void* dat[2];
-	dat[0] = (void*)nf.get();
-	dat[1] = (void*)d.get();
-	res = nlopt_set_min_objective(opt, f, dat);
+	nlopt_problem problem;
+	problem.f = nf.get();
+	problem.d = d.get();
+	problem.opt = opt;
+	problem.distance = HUGE_VAL;
+	res = nlopt_set_min_objective(opt, f, &problem);
 	if(res < 0)
 	{
 		print_nlopt_error(res, "nlopt_set_min_objective");
+		nlopt_destroy(opt);
 		return false;
 	}
 	
@@ -290,11 +325,15 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	std::cout << p << std::endl;
 	res = nlopt_optimize(opt, &p[0], &f_end);
 
-	if(res > 0)
+	// The optimizer also found something when it stopped because of roundoff
+	// errors or of parameters that are not numbers
+	const bool found = (res > 0 || res == NLOPT_ROUNDOFF_LIMITED || res == NLOPT_FORCED_STOP)
+	                 && problem.distance < HUGE_VAL;
+	if(found)
 	{
-		std::cout << "<<INFO>> optimized distance: " << f_end << std::endl;
-		std::cout << "<<INFO>> found parameters: " << p << std::endl;
-		nf->setParameters(p);
+		std::cout << "<<INFO>> optimized distance: " << problem.distance << std::endl;
+		std::cout << "<<INFO>> found parameters: " << problem.best << std::endl;
+		nf->setParameters(problem.best);
 	}
 	else
 	{
@@ -302,7 +341,7 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	}
 
 	nlopt_destroy(opt);
-	return res > 0;
+	return found;
 }
 
 void nonlinear_fitter_nlopt::set_parameters(const arguments& args)
diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.h b/sources/plugins/nonlinear_fitter_nlopt/fitter.h
index 1cf2cbc..3fe7950 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.h
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.h
@@ -46,10 +46,10 @@ using namespace alta;
  *     Quadratic Programming algorithm (NLOPT_LD_SLSQP).
  *
  *   + `--nlop-max-num-iterations [int]` permits to change the number of iterations
- *     of NlOpt before stopping and returning a result. By default, the value is
- *     `10`.
- *   + '--nlop-relative-function-tolerance [float]'. Default value is 1e-4.
- *   + '--nlop-abs-function-tolerance [float]'. Default valie is 1e-6.
+ *     of NlOpt before stopping and returning a result. By default, it is not
+ *     limited.
+ *   + '--nlop-relative-function-tolerance [float]'. Default value is 1e-10.
+ *   + '--nlop-abs-function-tolerance [float]'. By default, it is not used.
  *
  *  [nlopt]: http://ab-initio.mit.edu/wiki/index.php/NLopt
  *  [optimizers]: http://ab-initio.mit.edu/wiki/index.php/NLopt
-- 
2.43.0


From 7fa79723f8c6f1354763aee762ccad6fdbd54db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 135/164] fix: the derivatives of log fits with ceres are those
 of log(1 + value)

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..3ebd01f 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,7 +74,7 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
@@ -82,7 +82,7 @@ class CeresFunctor : public ceres::CostFunction
 
 		// The parameter of the function _f should be set prior to this function
 		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +95,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From 04ad27b7f89783a1faf5573cbb4602385ee6d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 136/164] fix: the gradient and parameter tolerances given to
 the ceres fitter are used as such

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 3ebd01f..5e59c2b 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -213,13 +213,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From 89f48b8747c8b4c4bd68a751331962dc8487ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 137/164] fix: the ceres fitter reports searches that failed
 and does not keep former options

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 5e59c2b..f348954 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -176,6 +176,11 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 #ifdef DEBUG
 	 std::cout << summary.BriefReport() << std::endl;
 #endif
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> " << summary.BriefReport() << std::endl;
+		 return false;
+	 }
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
@@ -184,6 +189,9 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 
 void nonlinear_fitter_ceres::set_parameters(const arguments& args)
 {
+    // Do not keep the options of a previous call
+    options = ceres::Solver::Options();
+
     std::string const MAX_NUM_ITER_OPTION = "ceres-max-num-iterations";
     if(args.is_defined(MAX_NUM_ITER_OPTION))
     {
-- 
2.43.0


From c40e3b2add6b3b65e6abdb9f0ee4968604f73156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 138/164] fix: nonlinear fitters refuse data of another output
 dimension than the function

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 5 +++++
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 5 +++++
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index f348954..6710a04 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -131,6 +131,11 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
         std::cerr << "<<ERROR>> the function is not a non-linear function" << std::endl;
         return false;
     }
+    if(d->parametrization().dimY() != nf->parametrization().dimY())
+    {
+        std::cerr << "<<ERROR>> the data and the function have different output dimensions" << std::endl;
+        return false;
+    }
 
 
 #ifndef DEBUG
diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 73967da..88c49eb 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -335,6 +335,11 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
         return false;
     }
     ptr<nonlinear_function> nf = dynamic_pointer_cast<nonlinear_function>(fit);
+    if(d->parametrization().dimY() != nf->parametrization().dimY())
+    {
+        std::cerr << "<<ERROR>> the data and the function have different output dimensions" << std::endl;
+        return false;
+    }
 	 nf->bootstrap(d, args);
 
 #ifndef DEBUG
diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index ca8286d..2638bde 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -182,6 +182,11 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		std::cerr << "<<ERROR>> Nl-Opt Fitter. the function is not a non-linear function" << std::endl;
 		return false;
 	}
+	if(d->parametrization().dimY() != nf->parametrization().dimY())
+	{
+		std::cerr << "<<ERROR>> the data and the function have different output dimensions" << std::endl;
+		return false;
+	}
 	nf->bootstrap(d, args);
 
 	#ifdef DEBUG
-- 
2.43.0


From 3090f25a60d394471ff6b72c1a41790b17928893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 139/164] fix: nlopt searches do not loop on distances that are
 not numbers

---
 .../plugins/nonlinear_fitter_nlopt/fitter.cpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index 2638bde..15d2eb9 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -98,6 +98,7 @@ struct nlopt_problem
 	nlopt_opt opt;
 	vec best;
 	double distance;
+	double limit;
 };
 
 double f(unsigned n, const double* x, double* dy, void* dat)
@@ -151,7 +152,10 @@ double f(unsigned n, const double* x, double* dy, void* dat)
 		df(dy, _f, _d);
 	}
 
-	// Keep the best parameters. Values that are not numbers are never the best
+	// Other optimizers loop forever on distances that are not numbers
+	if(!(y < problem->limit)) { y = problem->limit; }
+
+	// Keep the best parameters
 	if(y < problem->distance)
 	{
 		problem->distance = y;
@@ -317,6 +321,15 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	problem.d = d.get();
 	problem.opt = opt;
 	problem.distance = HUGE_VAL;
+	problem.limit = HUGE_VAL;
+	const double start = f(nf->nbParameters(), &p[0], NULL, &problem);
+	if(!(start < HUGE_VAL))
+	{
+		std::cerr << "<<ERROR>> the distance to the data is not a number at the starting parameters" << std::endl;
+		nlopt_destroy(opt);
+		return false;
+	}
+	problem.limit = 1e6 * (1.0 + start);
 	res = nlopt_set_min_objective(opt, f, &problem);
 	if(res < 0)
 	{
@@ -332,8 +345,7 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 
 	// The optimizer also found something when it stopped because of roundoff
 	// errors or of parameters that are not numbers
-	const bool found = (res > 0 || res == NLOPT_ROUNDOFF_LIMITED || res == NLOPT_FORCED_STOP)
-	                 && problem.distance < HUGE_VAL;
+	const bool found = (res > 0 || res == NLOPT_ROUNDOFF_LIMITED || res == NLOPT_FORCED_STOP);
 	if(found)
 	{
 		std::cout << "<<INFO>> optimized distance: " << problem.distance << std::endl;
-- 
2.43.0


From c020f88c8e53c876e77205717c5f2c4a425170cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 140/164] fix: nonlinear fitters refuse to fit without data
 instead of reading past it

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 5 +++++
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 5 +++++
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 6710a04..55ad345 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -131,6 +131,11 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
         std::cerr << "<<ERROR>> the function is not a non-linear function" << std::endl;
         return false;
     }
+    if(d->size() == 0)
+    {
+        std::cerr << "<<ERROR>> there is no data to fit" << std::endl;
+        return false;
+    }
     if(d->parametrization().dimY() != nf->parametrization().dimY())
     {
         std::cerr << "<<ERROR>> the data and the function have different output dimensions" << std::endl;
diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 88c49eb..36fa82d 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -335,6 +335,11 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
         return false;
     }
     ptr<nonlinear_function> nf = dynamic_pointer_cast<nonlinear_function>(fit);
+    if(d->size() == 0)
+    {
+        std::cerr << "<<ERROR>> there is no data to fit" << std::endl;
+        return false;
+    }
     if(d->parametrization().dimY() != nf->parametrization().dimY())
     {
         std::cerr << "<<ERROR>> the data and the function have different output dimensions" << std::endl;
diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index 15d2eb9..ff92309 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -186,6 +186,11 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		std::cerr << "<<ERROR>> Nl-Opt Fitter. the function is not a non-linear function" << std::endl;
 		return false;
 	}
+	if(d->size() == 0)
+	{
+		std::cerr << "<<ERROR>> there is no data to fit" << std::endl;
+		return false;
+	}
 	if(d->parametrization().dimY() != nf->parametrization().dimY())
 	{
 		std::cerr << "<<ERROR>> the data and the function have different output dimensions" << std::endl;
-- 
2.43.0


From 8acaf1151c582b07d4b88b46840d08e1c2a38bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 141/164] fix: the eigen fitter refuses starting parameters out
 of bounds

---
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 36fa82d..8844331 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -55,7 +55,7 @@ struct EigenFunctor: Eigen::DenseFunctor<double>
 		vec p_max = _f->getParametersMax();
 		for(int i=0; i<_f->nbParameters(); ++i)
 		{
-			if(x[i] < p_min[i] || x[i] > p_max[i])
+			if(!(x[i] >= p_min[i] && x[i] <= p_max[i]))
 			{
 				return -1;
 			}
@@ -369,6 +369,14 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 EigenFunctor functor(nf, d, args.is_defined("fit-with-cosine"));
 		 Eigen::LevenbergMarquardt<EigenFunctor> lm(functor);
 
+		 // The solver goes on when the starting parameters cannot be used
+		 Eigen::VectorXd y(functor.values());
+		 if(functor(x, y) < 0)
+		 {
+			 std::cerr << "<<ERROR>> the starting parameters are not within the bounds of the function" << std::endl;
+			 return false;
+		 }
+
 		 info = lm.minimize(x);
 
 		 if(info == Eigen::LevenbergMarquardtSpace::ImproperInputParameters)
-- 
2.43.0


From fd2511c0b015b7b26ed573e46d7614e9e4483c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 142/164] fix: C++ and matlab exports of nonlinear functions
 are refused

The exported code called functions that it did not define.
---
 sources/core/function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 72ad2e4..ef9524b 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -60,6 +60,12 @@ void function::save(const std::string& filename, const arguments& args) const
 		throw std::invalid_argument("unknown export format \"" + args["export"] + "\"");
 	}
 
+	// Nonlinear functions only have shader code
+	if((is_cpp || is_matlab) && dynamic_cast<const nonlinear_function*>(this) != NULL)
+	{
+		throw std::invalid_argument("no " + args["export"] + " code for nonlinear functions");
+	}
+
 	// Open the file
 	std::ofstream file;
 	file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
-- 
2.43.0


From 8f9cbb7766f20b71af864f5ebb989e61ca714f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 143/164] fix: shader exports of functions with two channels
 are refused

---
 sources/core/function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index ef9524b..43585ab 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -66,6 +66,12 @@ void function::save(const std::string& filename, const arguments& args) const
 		throw std::invalid_argument("no " + args["export"] + " code for nonlinear functions");
 	}
 
+	// A shader returns a color
+	if(is_shader && parametrization().dimY() != 1 && parametrization().dimY() != 3)
+	{
+		throw std::invalid_argument("shaders need a function with one or three channels");
+	}
+
 	// Open the file
 	std::ofstream file;
 	file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
-- 
2.43.0


From ad1671fe83d411413835439ac282abe76cef8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 144/164] fix: exported shaders end their statement

Only the parts of a compound were followed by a semicolon, which also
made products of compounds invalid.
---
 sources/core/function.cpp | 43 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 43585ab..fbfdce2 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -121,6 +121,10 @@ void function::save(const std::string& filename, const arguments& args) const
 
 	// Save fit data
 	save_call(file, args);
+	if(is_shader)
+	{
+		file << ";" << std::endl;
+	}
 	if(is_cpp || is_shader)
 	{
 		file << "\treturn res;" << std::endl;
@@ -815,29 +819,31 @@ void compound_function::save_body(std::ostream& out, const arguments& args) cons
 		
 void compound_function::save_call(std::ostream& out, const arguments& args) const
 {
-	bool is_cpp    = args["export"] == "C++";
 	bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
-	bool is_matlab = args["export"] == "matlab";
 
 	// This part is export specific. For ALTA, the coefficients are just
 	// dumped as is with a #FUNC {plugin_name} header.
 	//
-	// For C++ export, the function call should be done before hand and
-	// the line should look like:
-	//   res += call_i(x);
+	// For shader export, the call is the sum of the calls:
+	//   (call_0(x) + call_1(x))
+	if(is_shader)
+	{
+		out << "(";
+	}
+
 	for(unsigned int i=0; i<fs.size(); ++i)
 	{
-		if(i != 0 && (is_cpp || is_matlab || is_shader))
+		if(i != 0 && is_shader)
 		{
-			out << "\tres += ";
+			out << std::endl << "\t\t+ ";
 		}
 
 		fs[i]->save_call(out, args);
+	}
 
-		if(is_cpp || is_matlab || is_shader)
-		{
-			out << ";" << std::endl;
-		}
+	if(is_shader)
+	{
+		out << ")";
 	}
 
 	function::save_call(out, args);
@@ -925,33 +931,30 @@ void product_function::save_body(std::ostream& out, const arguments& args) const
 
 void product_function::save_call(std::ostream& out, const arguments& args) const
 {
-	bool is_cpp    = args["export"] == "C++";
 	bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
-	bool is_matlab = args["export"] == "matlab";
 
 	// This part is export specific. For ALTA, the coefficients are just
 	// dumped as is with a #FUNC {plugin_name} header.
 	//
-	// For C++ export, the function call should be done before hand and
-	// the line should look like:
-	//   res += call_i(x);
-	if(is_cpp || is_matlab || is_shader)
+	// For shader export, the call is the product of the calls:
+	//   (call_1(x) * call_2(x))
+	if(is_shader)
 	{
 		out << "(";
 	}
 
 	f1->save_call(out, args);
 
-	if(is_cpp || is_matlab || is_shader)
+	if(is_shader)
 	{
 		out << " * ";
 	}
 
 	f2->save_call(out, args);
 
-	if(is_cpp || is_matlab || is_shader)
+	if(is_shader)
 	{
-		out << ")" << std::endl;
+		out << ")";
 	}
 
 	function::save_call(out, args);
-- 
2.43.0


From 576ad3c51265d0d4fc2449dd9fc617c4972da1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 145/164] fix: exported shaders define a function that is used
 twice once

---
 sources/core/function.cpp | 45 ++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index fbfdce2..4bc41b0 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,8 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <set>
+#include <sstream>
 
 using namespace alta;
 
@@ -806,17 +808,43 @@ void compound_function::setParameters(const vec& p)
 	}
 }
 		
-void compound_function::save_body(std::ostream& out, const arguments& args) const
+// Write the bodies of the functions F is made of, each of them once.
+static void save_bodies(const nonlinear_function* f, std::ostream& out,
+                        const arguments& args, std::set<std::string>& done)
 {
-	for(unsigned int i=0; i<fs.size(); ++i)
+	const compound_function* compound = dynamic_cast<const compound_function*>(f);
+	const product_function* product = dynamic_cast<const product_function*>(f);
+	if(compound != NULL)
 	{
-		fs[i]->save_body(out, args);
-		out << std::endl;
+		for(unsigned int i=0; i<compound->size(); ++i)
+		{
+			save_bodies((*compound)[i], out, args, done);
+		}
 	}
+	else if(product != NULL)
+	{
+		save_bodies(product->first(), out, args, done);
+		save_bodies(product->second(), out, args, done);
+	}
+	else
+	{
+		std::ostringstream body;
+		f->save_body(body, args);
+		if(done.insert(body.str()).second)
+		{
+			out << body.str() << std::endl;
+		}
+	}
+}
+
+void compound_function::save_body(std::ostream& out, const arguments& args) const
+{
+	std::set<std::string> done;
+	save_bodies(this, out, args, done);
 
 	function::save_body(out, args);
 }
-		
+
 void compound_function::save_call(std::ostream& out, const arguments& args) const
 {
 	bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
@@ -920,11 +948,8 @@ bool product_function::load(std::istream& in)
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
 {
-	f1->save_body(out, args);
-	out << std::endl;
-	
-	f2->save_body(out, args);
-	out << std::endl;
+	std::set<std::string> done;
+	save_bodies(this, out, args, done);
 
 	function::save_body(out, args);
 }
-- 
2.43.0


From 24f89225e4761e0fd109751bc4c22cef8f74316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 146/164] fix: the exported shader of abc is its value

It evaluated the lobe at cos(theta_h) instead of 1 - cos(theta_h), whatever
the parametrization.
---
 sources/plugins/nonlinear_function_abc/function.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 4ff0069..bb69888 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -286,12 +286,18 @@ void abc_function::save_body(std::ostream& out, const arguments& args) const
 
     if(is_shader)
     {
+        if(_parameters.input_parametrization() != params::COS_TH)
+        {
+            throw std::runtime_error("the shader of abc needs the COS_TH parametrization");
+        }
+
         out << "vec3 abc(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 a, vec3 b, vec3 c)" << std::endl;
         out << "{" << std::endl;
         out << "\tvec3  H   = normalize(L + V);" << std::endl;
-        out << "\tfloat hn  = dot(H,N);" << std::endl;
+        out << "\tfloat hn  = min(dot(H,N), 1.0f);" << std::endl;
 		  out << "\t" << std::endl;
-        out << "\treturn a / pow(vec3(1.0f) + b*hn, c);" << std::endl;
+        out << "\tif(hn < 0.0f) { return vec3(0.0f); }" << std::endl;
+        out << "\treturn a / pow(vec3(1.0f) + b*(1.0f - hn), c);" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From f2e318ce4fbd543a66acc5ffc818477968a25ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 147/164] fix: the exported shader of beckmann is its value

It had another normalization, a shadowing term, and lobes below the horizon.
---
 .../nonlinear_function_beckmann/function.cpp  | 30 ++-----------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 82a23ff..fc6750c 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -284,33 +284,6 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 
     if(is_shader)
     {
-    	//This is the Rational Approximation Code from Walter2007
-    	out << "vec3 g_beckmann(vec3 M, vec3 N, vec3 a)" << std::endl;
-		  out << "{" << std::endl;
-      out << "\tfloat d = dot(M,N);" << std::endl;
-		  out << "\tvec3 c = d / (a * sqrt(1.0f-d));" << std::endl;
-		  out << "\tvec3 r;" << std::endl;
-		  out << "\tif(c.x < 1.6f) {" << std::endl;
-		  out << "\t\tr.x = (3.535*c.x + 2.181*c.x*c.x) / (1 + 2.276*c.x + 2.577*c.x*c.x);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.x = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.y < 1.6f) {" << std::endl;
-		  out << "\t\tr.y = (3.535*c.y + 2.181*c.y*c.y) / (1 + 2.276*c.y + 2.577*c.y*c.y);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.y = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.z < 1.6f) {" << std::endl;
-		  out << "\t\tr.z = (3.535*c.z + 2.181*c.z*c.z) / (1 + 2.276*c.z + 2.577*c.z*c.z);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.z = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\treturn r;" << std::endl;
-      out << "}" << std::endl;
-
-		  out << std::endl;
-
-		  // This part is the call to beckmann function
       out << "vec3 beckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
       out << "{" << std::endl;
       out << "\tvec3  H   = normalize(L + V);" << std::endl;
@@ -318,7 +291,8 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 		  out << "\tfloat ln  = dot(L,N);" << std::endl;
 		  out << "\tfloat vn  = dot(V,N);" << std::endl;
 		  out << "\t" << std::endl;
-      out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((hn*hn - 1.0) / (a*a*hn*hn)) * g_beckmann(L,N,a) * g_beckmann(V,N,a);" << std::endl;
+      out << "\tif(hn <= 0.0 || ln*vn <= 0.0) { return vec3(0.0); }" << std::endl;
+      out << "\treturn ks / (4.0 * " << M_PI << " * a*a * hn*hn*hn*hn) * exp((hn*hn - 1.0) / (a*a*hn*hn));" << std::endl;
       out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 8ef96e5ae98f3fc95d2e46977e320a0408acbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 148/164] fix: the exported shader of retrobeckmann is its
 value

It had another normalization and ignored the type of the lobe.
---
 .../function.cpp                              | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index edf55a7..6e7a729 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -267,7 +267,7 @@ void retrobeckmann_function::save_call(std::ostream& out, const arguments& args)
 	}
 	else
 	{
-		out << "retrobeckmann(L, V, N, X, Y, vec3(";
+		out << (_use_back_param ? "retrobeckmann_back" : "retrobeckmann_retro") << "(L, V, N, X, Y, vec3(";
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
 			out << _ks[i];
@@ -290,15 +290,22 @@ void retrobeckmann_function::save_body(std::ostream& out, const arguments& args)
 
     if(is_shader)
     {
-        out << "vec3 retrobeckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
+        out << "vec3 " << (_use_back_param ? "retrobeckmann_back" : "retrobeckmann_retro")
+            << "(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
         out << "{" << std::endl;
-        out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
-        out << "\tvec3  B   = normalize(L + R);" << std::endl;
-        out << "\tfloat bn  = dot(B,N);" << std::endl;
-		  out << "\tfloat ln  = dot(L,N);" << std::endl;
-		  out << "\tfloat vn  = dot(V,N);" << std::endl;
+        if(_use_back_param)
+        {
+            out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
+            out << "\tvec3  B   = normalize(L + R);" << std::endl;
+            out << "\tfloat bn  = dot(B,N);" << std::endl;
+        }
+        else
+        {
+            out << "\tfloat bn  = dot(L,V);" << std::endl;
+        }
 		  out << "\t" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
+        out << "\tif(bn <= 0.0) { return vec3(0.0); }" << std::endl;
+        out << "\treturn ks / (4.0 * " << M_PI << " * a*a * bn*bn*bn*bn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 91b006232b824a5f3921e12d6181b1ff99ca0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 149/164] fix: the exported shader of retroblinn is its value

The specular coefficient was missing.
---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 6ceb34b..247539d 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -231,12 +231,17 @@ void retroblinn_function::save_body(std::ostream& out,
 
     if(is_shader)
     {
+        if(_parameters.input_parametrization() != params::COS_TK)
+        {
+            throw std::runtime_error("the shader of retroblinn needs the COS_TK parametrization");
+        }
+
         out << "vec3 retroblinn(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl)" << std::endl;
         out << "{" << std::endl;
 		  out << "\tvec3 Vp = 2.0f*N*(dot(N,V)) - V;" << std::endl;
 		  out << "\tvec3 K  = normalize(L + Vp);" << std::endl;
         out << "\tvec3 ext_dot = vec3(dot(K,N));" << std::endl;
-        out << "\treturn pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
+        out << "\treturn ks * pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;
     }
-- 
2.43.0


From bf04b9e1b8e172ededdbd65e003d2ca69d9fe4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 150/164] fix: the exported shader of retroyoo is its value

It was another function, of undefined names.
---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 516ac53..418c54b 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -240,7 +240,11 @@ void yoo_function::save_body(std::ostream& out, const arguments& args) const
     {
         out << "vec3 retroyoo(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 kr, vec3 lt)" << std::endl;
         out << "{" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn)) * g_yoo(L,N,a) * g_yoo(V,N,a);" << std::endl;
+        out << "\tfloat q = 2.0 * " << M_PI << " * acos(clamp(dot(L,V), -1.0, 1.0)) / 633.0;" << std::endl;
+        out << "\tvec3 ql = q * lt;" << std::endl;
+        out << "\tvec3 g  = mix((1.0 - exp(-1.4 * ql)) / max(ql, 1.0E-5), 1.4 - 0.98 * ql, step(ql, vec3(1.0E-5)));" << std::endl;
+        out << "\tvec3 s  = 1.0 + ql;" << std::endl;
+        out << "\treturn kr * 3.0 / (16.0 * " << M_PI << ") * (2.4 + (1.0 + g) / (s*s));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From ecad3f29d7a284edc0a5dd108ad50e51ff470531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 151/164] fix: exported shaders can hold spherical gaussians of
 several types

They were different functions of the same name.
---
 .../nonlinear_function_spherical_gaussian/function.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 57b73c3..bffe75a 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -357,7 +357,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	 }
 	 else
 	 {
-		 out << "spherical_gaussian(L, V, N, X, Y, vec3(";
+		 out << "spherical_gaussian_" << TYPE_NAMES[_type] << "(L, V, N, X, Y, vec3(";
          for(int i=0; i<nY; ++i)
 		 {
 			 out << _ks[i];
@@ -371,7 +371,9 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
              if(i < nY-1) { out << ", "; }
 		 }
 
-		 out << "))";
+		 out << ")";
+		 if(_type == Moment) { out << ", " << _a; }
+		 out << ")";
 	 }
 
 }
@@ -382,7 +384,9 @@ void spherical_gaussian_function::save_body(std::ostream& out, const arguments&
 
     if(is_shader)
     {
-        out << "vec3 spherical_gaussian(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl)" << std::endl;
+        out << "vec3 spherical_gaussian_" << TYPE_NAMES[_type]
+            << "(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl"
+            << (_type == Moment ? ", float a)" : ")") << std::endl;
         out << "{" << std::endl;
 
 		  switch(_type)
-- 
2.43.0


From 620b122391c3677223f09d1e22fe2a0e7f931a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 152/164] fix: the exported shader of moment spherical
 gaussians is their value

The function moves the light, the shader moved the view.
---
 .../nonlinear_function_spherical_gaussian/function.cpp    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index bffe75a..5215a2a 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -397,10 +397,10 @@ void spherical_gaussian_function::save_body(std::ostream& out, const arguments&
 				  break;
 
 			  case Moment:
-				  out << "\tfloat t = " << _a << "*acos(dot(V, N));" << std::endl;
-				  out << "\tfloat p = atan(dot(V, Y), dot(V, X)) + " << M_PI << ";" << std::endl;
-				  out << "\tvec3 R = cos(p)*sin(t)*X + sin(p)*sin(t)*Y + cos(t)*N;" << std::endl;
-				  out << "\tvec3 ext_dot = vec3(dot(L,R));" << std::endl;
+				  out << "\tfloat t = a*acos(clamp(dot(L, N), -1.0, 1.0));" << std::endl;
+				  out << "\tfloat p = atan(dot(L, Y), dot(L, X));" << std::endl;
+				  out << "\tvec3 R = cos(t)*N - cos(p)*sin(t)*X - sin(p)*sin(t)*Y;" << std::endl;
+				  out << "\tvec3 ext_dot = vec3(dot(V,R));" << std::endl;
 				  break;
 
 			  case Back:
-- 
2.43.0


From 62d32e24df1c52b482f946a88fe57003c9eecf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 153/164] fix: the exported shader of lafortune has its diffuse
 term

and can be a factor of a product.
---
 .../nonlinear_function_lafortune/function.cpp     | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 772c3b7..92eb760 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -476,9 +476,17 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     }
     else
     {
+        out << "(vec3(";
+        for(int i=0; i<_nY; ++i)
+        {
+            out << _kd[i];
+            if(i < _nY-1) { out << ", "; }
+        }
+        out << ")";
+
         for(int n=0; n<_n; ++n)
         {
-            out << "lafortune(L, V, N, X, Y, vec3(";
+            out << " + lafortune(L, V, N, X, Y, vec3(";
             for(int i=0; i<_nY; ++i)
             {
                 out << _C[(n*_nY + i)*3 + 0];
@@ -506,10 +514,11 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
                 if(i < _nY-1) { out << ", "; }
             }
 
-            // For multiple lobes, add a sum sign
             out << "))";
-            if(n < _n-1) { out << " + "; }
         }
+
+        // The sum of the lobes can be a factor
+        out << ")";
     }
 }
 
-- 
2.43.0


From 3198594fd70cf764ea863765b4f27cb09e3531f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 154/164] fix: the exported shader of schlick masking is its
 value

It was not valid, and another function.
---
 .../plugins/nonlinear_shadowing_schlick/function.cpp   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index e53ed57..0e93ee3 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -89,7 +89,7 @@ void schlick_masking::save_call(std::ostream& out, const arguments& args) const
     }
     else
     {
-        out << "masking_schlick(L, V, N, X, Y, vec3";
+        out << "masking_schlick(L, V, N, X, Y, vec3(";
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << w[i];
@@ -108,11 +108,11 @@ void schlick_masking::save_body(std::ostream& out, const arguments& args) const
         out << std::endl;
         out << "vec3 masking_schlick(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 K)" << std::endl;
         out << "{" << std::endl;
-        out << "\tconst float dotLN = dot(L, N);" << std::endl;
-        out << "\tconst float dotVN = dot(L, N);" << std::endl;
+        out << "\tfloat dotLN = dot(L, N);" << std::endl;
+        out << "\tfloat dotVN = dot(V, N);" << std::endl;
 		  out << std::endl;
-        out << "\tconst vec3 GL = dotLN / (dotLN + K * (dotLN - 1.0));" << std::endl;
-        out << "\tconst vec3 GV = dotVN / (dotVN + K * (dotVN - 1.0));" << std::endl;
+        out << "\tvec3 GL = dotLN / (dotLN + K * (1.0 - dotLN));" << std::endl;
+        out << "\tvec3 GV = dotVN / (dotVN + K * (1.0 - dotVN));" << std::endl;
 		  out << std::endl;
         out << "\treturn vec3(GL*GV);" << std::endl;
         out << "}" << std::endl;
-- 
2.43.0


From 013112c1d4f74289b8259b4f86994f68b9e8ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 155/164] fix: the exported shader of walter smith is valid

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 9569f59..945fccf 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -158,13 +158,13 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
 
     out << "\t float tan_theta_v = tan( acos( NdotV ) ); " << std::endl
         << std::endl
-        << "\t vec3 geom_term_view(0.0); " << std::endl
+        << "\t vec3 geom_term_view = vec3(0.0); " << std::endl
         << "\t geom_term_view[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_v)) ;"<< std::endl
         << std::endl
         << "\t float tan_theta_l = tan( acos( NdotL ) ); " << std::endl
-        << "\t vec3 geom_term_light(0.0); " << std::endl    
+        << "\t vec3 geom_term_light = vec3(0.0); " << std::endl    
         << "\t geom_term_light[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_l)) ;" << std::endl
-- 
2.43.0


From 1cc2f167b3386df5c4ef30947e0ed116a7d5277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 156/164] fix: exported C++ and matlab code of rational
 functions is their value

The C++ code was not scaled to the domain, the one of all channels was given
the same names, and the matlab code was not valid. There is no code for the
other bases than monomials, which were exported as monomials.
---
 sources/core/function.cpp          |  10 ++-
 sources/core/rational_function.cpp | 100 ++++++++++++++---------------
 2 files changed, 54 insertions(+), 56 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 4bc41b0..b5bd788 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -100,7 +100,9 @@ void function::save(const std::string& filename, const arguments& args) const
 
 	if(is_cpp)
 	{
+		file << "#include <cmath>" << std::endl;
 		file << "#include <Eigen/Core>" << std::endl;
+		file << "using std::pow;" << std::endl;
 		file << "typedef Eigen::VectorXd vec;" << std::endl;
 		file << std::endl;
 		file << "vec brdf(const vec& x)" << std::endl;
@@ -110,9 +112,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	else if(is_matlab)
 	{
 		file << "function res = brdf(x)" << std::endl;
-		file << "{" << std::endl;
-		file << "\tres = zeros(" << parametrization().dimY() << ");" << std::endl;
-		file << "\t";
+		file << "\tres = zeros(" << parametrization().dimY() << ", 1);" << std::endl;
 	}
 	else if(is_shader)
 	{
@@ -134,9 +134,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	}
 	else if(is_matlab)
 	{
-		file << ";" << std::endl;
-		file << "\treturn res;" << std::endl;
-		file << "endfunction" << std::endl;
+		file << "end" << std::endl;
 	}
 	file << std::endl;
 
diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index fbc0c61..e3ff3b4 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -86,6 +86,33 @@ bool rational_function_1d::load(std::istream& in)
 	return true;
 }
 
+// Write the sum of the monomials COEFFS of the components of x, that are first
+// scaled from [MIN, MAX] to [-1, 1].
+template<typename T>
+static void save_polynomial(std::ostream& out, const std::vector<T>& coeffs,
+                            const vec& min, const vec& max, bool is_matlab)
+{
+	out << "(";
+	for(unsigned int i=0; i<coeffs.size(); ++i)
+	{
+		if(i != 0) { out << " + "; }
+		out << coeffs[i].a;
+		for(unsigned int k=0; k<coeffs[i].deg.size(); ++k)
+		{
+			std::ostringstream x;
+			x.copyfmt(out);
+			if(is_matlab) { x << "x(" << k+1 << ")"; }
+			else          { x << "x[" << k << "]"; }
+
+			out << (is_matlab ? ".*(" : "*pow(")
+			    << "2.0*((" << x.str() << " - (" << min[k] << ")) / ("
+			    << max[k]-min[k] << ") - 0.5)" << (is_matlab ? ").^" : ", ")
+			    << coeffs[i].deg[k] << (is_matlab ? "" : ")");
+		}
+	}
+	out << ")";
+}
+
 void rational_function_1d::save_body(std::ostream& out, const arguments& args) const
 {
     bool const is_matlab = args["export"] == "matlab";
@@ -117,59 +144,17 @@ void rational_function_1d::save_body(std::ostream& out, const arguments& args) c
 			 out << _q_coeffs[i].a << std::endl ;
 		 }
 	 }
-	 else if(is_matlab)
-	 {
-		 out << "(";
-		 for(unsigned int i=0; i<np; ++i)
-		 {
-			 out << _p_coeffs[i].a;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 if(k != _parameters.dimX()-1) { out << ".*"; }
-				 out << "x(k).^" << _p_coeffs[i].deg[k];
-			 }
-			 if(i != np-1) { out << " + "; }
-		 }
-		 out << ") / (";
-
-		 for(unsigned int i=0; i<nq; ++i)
-		 {
-			 out << _q_coeffs[i].a << "x.^" << i;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 if(k != _parameters.dimX()-1) { out << ".*"; }
-				 out << "x(k).^" << _q_coeffs[i].deg[k];
-			 }
-			 if(i != nq-1) { out << " + "; }
-		 }
-		 out << ")";
-	 }
-	else if(is_cpp)
+	 else if(is_cpp || is_matlab)
 	 {
-		 out << "\tdouble num = ";
-		 for(unsigned int i=0; i<np; ++i)
+		 // The other bases are not written as monomials
+		 if(typeid(*this) != typeid(rational_function_1d))
 		 {
-			 out << _p_coeffs[i].a;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 out << "*pow(x[" << k << "], " << _p_coeffs[i].deg[k] << ")";
-			 }
-			 if(i != np-1) { out << " + "; }
+			 NOT_IMPLEMENTED();
 		 }
-		 out << ";" << std::endl;
 
-		out << "\tdouble den = ";
-		 for(unsigned int i=0; i<nq; ++i)
-		 {
-			 out << _q_coeffs[i].a;
-			 for(int k=0; k<_parameters.dimX(); ++k)
-			 {
-				 out << "*pow(x[" << k << "], " << _q_coeffs[i].deg[k] << ")";
-			 }
-			 if(i != nq-1) { out << " + "; }
-		 }
-		 out << ";" << std::endl;
-		 out << "\tres[0] = num / den;" << std::endl;
+		 save_polynomial(out, _p_coeffs, _min, _max, is_matlab);
+		 out << " / ";
+		 save_polynomial(out, _q_coeffs, _min, _max, is_matlab);
 	 }
 	 else
 	 {
@@ -690,6 +675,7 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
 		out << "#MAX "; for(int k=0; k<_parameters.dimX(); ++k) { out << _max[k] << " "; } out << std::endl; 
 	}
 
+	bool const is_matlab = args["export"] == "matlab";
 	for(int k=0; k<_parameters.dimY(); ++k)
 	{
       const rational_function_1d* rf = get(k);
@@ -698,8 +684,22 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
       // Skip them (XXX: is this the right thing to do?).
       if (rf != NULL)
       {
-          rf->save_body(out, args);
+          if(is_alta)
+          {
+              rf->save_body(out, args);
+          }
+          else
+          {
+              if(is_matlab) { out << "\tres(" << k+1 << ") = "; }
+              else          { out << "\tres[" << k << "] = "; }
+              rf->save_body(out, args);
+              out << ";";
+          }
           out << std::endl;
+      }
+      else if(!is_alta)
+      {
+          throw std::runtime_error("the rational function has no coefficients");
       }
 	}
 }
-- 
2.43.0


From 1b4513623941e503e8a6f8b84db59a7928d4b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:09 +0000
Subject: [PATCH 157/164] fix: refuse a Fresnel term on the built-in rational
 function

---
 sources/core/plugins_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 19deb33..f041e2b 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -319,12 +319,12 @@ function* plugins_manager::get_function(const arguments& args,
   else //Here we check if the argument provided with --func is file describing a function
   {
     const std::string filename = args["func"];
+    FunctionPrototype myFunction = NULL;
     if(filename == "rational_function")
     {
-      return new rational_function(params);
+      func = new rational_function(params);
     }
-    FunctionPrototype myFunction = open_library<FunctionPrototype>(filename, "provide_function");
-    if(myFunction != NULL)
+    else if((myFunction = open_library<FunctionPrototype>(filename, "provide_function")) != NULL)
     {
       #ifdef DEBUG
       std::cout << "<<DEBUG>> using function provider in file \"" << filename << "\"" << std::endl;
-- 
2.43.0


From 3a17718ba96848884734eb8840495c0064890897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:51 +0000
Subject: [PATCH 158/164] fix: a pair with a missing element reads zero instead
 of an uninitialized value

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index f176675..f7c7c81 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -366,7 +366,7 @@ class arguments
 				std::string str = _map.find(key)->second;
 				std::stringstream sstream(str);
 
-				T first, second;
+				T first = T(), second = T();
 				sstream >> first >> second;
 
 				// Update the pair
-- 
2.43.0


From a74af8d089d8aaa0a67e3526b929350950805d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:58 +0000
Subject: [PATCH 159/164] fix: keep the ABC derivative finite when the lobe
 overflows

---
 sources/plugins/nonlinear_function_abc/function.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index bb69888..1bfb8d9 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -113,13 +113,12 @@ vec abc_function::parametersJacobian(const vec& x) const
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-				 const double fact2 = fact*fact;
 
 				 // df / da
 				 jac[i*nbParameters() + j*3+0] = fact;
 
 				 // df / db
-				 jac[i*nbParameters() + j*3+1] = - _a[i] * hn *_c[i] * pow(f, _c[i]-1.0) * fact2;
+				 jac[i*nbParameters() + j*3+1] = - _a[i] * hn *_c[i] * pow(f, -_c[i]-1.0);
 
 				 // df / dc
 				 if(f > 0.0)
-- 
2.43.0


From 213008173c1606fcbf38a1033591dec9b7228304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:17 +0000
Subject: [PATCH 160/164] fix: data2moments refused grids

---
 sources/softs/data2moments/main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 1112e12..ee1c4ff 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -89,9 +89,14 @@ try
 	}
 	CATCH_FILE_IO_ERROR(args["input"]);
 
+	// Some data objects that derive from vertical_segment do interpolate.
 	if(dynamic_pointer_cast<vertical_segment>(d)) {
-		std::cerr << "<<ERROR>> this data object is not interpolant." << std::endl;
-		return 1;
+		try {
+			d->value(d->min());
+		} catch(const std::runtime_error&) {
+			std::cerr << "<<ERROR>> this data object is not interpolant." << std::endl;
+			return 1;
+		}
 	}
 
 	// Create output file
-- 
2.43.0


From 8591149a24ac4e57f9893bef301b35439bcc61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:53 +0000
Subject: [PATCH 161/164] fix: samples beyond the range of float were dropped
 on load

---
 sources/core/data_storage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 53770e8..703a3cd 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -177,14 +177,14 @@ alta::data* alta::load_data_from_text(std::istream& input,
   }
   size_t row_count = dim.first + 3 * dim.second;
 
-  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
-  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::max()) ;
+  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::infinity()) ;
+  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::infinity()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << min << " -> " << max << " x-interval" << std::endl;
 #endif
 
-  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::max()) ;
-  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::max()) ;
+  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::infinity()) ;
+  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::infinity()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
-- 
2.43.0


From ff6b35854035ef10424c57790446cfa0bc6061f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:41 +0000
Subject: [PATCH 162/164] fix: functions could not be bootstrapped from the
 files ALTA saves

---
 sources/core/function.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index b5bd788..e72a646 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -35,6 +35,15 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     std::ifstream in(args["bootstrap"].c_str());
     if(in.is_open())
     {
+      // Skip the header, if any
+      std::string line;
+      while(std::getline(in, line) && line != "#ALTA HEADER END");
+      if(!in)
+      {
+        in.clear();
+        in.seekg(0);
+      }
+
       if(!load(in))
 			{
 				std::cerr << "<<ERROR>> cannot bootstrap from file \"" << args["bootstrap"] << "\"" << std::endl;
-- 
2.43.0


From e8b501617c2f3c87c6a9b59f4c8f9915aebdc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:10 +0000
Subject: [PATCH 163/164] fix: --data-correct-cosine multiplied by the light
 cosine instead of dividing by both

---
 sources/core/data_storage.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 703a3cd..a995faf 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -35,27 +35,21 @@ static void delete_array(double *thing)
 }
 
 
+// Divide the value of V, and its confidence interval, by the product of the
+// cosines of the light and view directions.  Return false if one of them is
+// below the horizon.
 static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
                               alta::params::input in_param)
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + 3 * dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
-    double factor = 1.0;
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
-        {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
-            v(i + dimX) /= factor;
-        }
+        v.tail(3 * dimY) /= cart[5] * cart[2];
         return true;
     }
     else return false;
@@ -253,8 +247,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From d1041aa75a8d0e73dd65983aefb53cf314deaa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:10 +0000
Subject: [PATCH 164/164] fix: loading with --data-correct-cosine needed a
 writable /tmp/data-corrected.dat

---
 sources/core/data_storage.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index a995faf..d784c02 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -269,9 +269,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
-
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
   return result;
-- 
2.43.0

