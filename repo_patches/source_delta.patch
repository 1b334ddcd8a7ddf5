From d2d76aa42e95b90bfbe27857cc2ca12aeffb13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:03 +0000
Subject: [PATCH 01/65] fix: BezierSurface::Check takes the control net type so
 that it compiles when instantiated

---
 src/LNLib/include/BezierSurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index 8c44c70..d779e1d 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -30,7 +30,7 @@ namespace LNLib {
 		{
 			int degreeU = surface.DegreeU;
 			int degreeV = surface.DegreeV;
-			std::vector<T> controlPoints = surface.ControlPoints;
+			std::vector<std::vector<T>> controlPoints = surface.ControlPoints;
 
 			VALIDATE_ARGUMENT(degreeU > 0, "degreeU", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
-- 
2.43.0


From 11b8719ebf96fa43866fa5edd0921baf9447a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 02/65] fix: DecomposeToBeziers advances past interior knots of
 full multiplicity

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..626e644 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -717,18 +717,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 					beziers[nb + 1].ControlPoints[save] = beziers[nb].ControlPoints[degree];
 				}
 			}
+		}
 
-			nb++;
-			if (b < m)
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
-
-				a = b;
-				b += 1;
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From 8957296df40484c5d7aade9374d7aac74df88bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 03/65] fix: ElevateDegree sizes its result by the number of
 distinct interior knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 626e644..ea0e7b8 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -936,7 +936,14 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 
 	int startIdx = degree + 1;
 	int endIdx = static_cast<int>(knotVector.size()) - (degree + 1);
-	int uniqueCount = endIdx - startIdx;
+	int uniqueCount = 0;
+	for (int i = startIdx; i < endIdx; i++)
+	{
+		if (!MathUtils::IsAlmostEqualTo(knotVector[i], knotVector[i + 1]))
+		{
+			uniqueCount++;
+		}
+	}
 	int nh = n + (uniqueCount + 1) * times;
 
 	int moresize = nh + 1;
-- 
2.43.0


From 2e7e4b4976af6a5bee074b06e7e79aabaef26c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:01 +0000
Subject: [PATCH 04/65] fix: ReduceDegree refuses curves whose degree cannot be
 lowered

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ea0e7b8..df3b176 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1110,6 +1110,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 	int size = controlPoints.size();
 	bool isBezier = ValidationUtils::IsValidBezier(degree, size);
 	if (!isBezier) return false;
+	if (!ValidationUtils::IsValidDegreeReduction(degree)) return false;
 
 	int r = floor((degree - 1) / 2);
 	std::vector<XYZW> updatedControlPoints(degree);
-- 
2.43.0


From 2319df203231e8bb329099761532dcbd76077de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:52 +0000
Subject: [PATCH 05/65] fix: BsplineSurface::ComputeControlPointsOfDerivatives
 differentiates in v with the knots of the span, up to every order

---
 src/LNLib/include/BsplineSurface.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..f9035ca 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -239,12 +239,13 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
-			for (int k = 0; k < du; k++)
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
+			for (int k = 0; k <= du; k++)
 			{
 				for (int i = 0; i <= rangeU - k; i++)
 				{
 					int dd = std::min(derivative - k, dv);
+					if (dd < 1) continue;
 
 					LN_BsplineCurve<T> bsplineCurve;
 					bsplineCurve.Degree = degreeV;
@@ -254,7 +255,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From 0c723c65e525baf01ea2a400ac835d74cfc55be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:52 +0000
Subject: [PATCH 06/65] fix: surface derivatives of an order above the degree
 are zero instead of an exception

---
 src/LNLib/include/BsplineSurface.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index f9035ca..d30fbae 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -105,14 +105,14 @@ namespace LNLib
 
 			std::vector<std::vector<T>> derivatives(derivative + 1, std::vector<T>(derivative + 1));
 
+			int du = std::min(derivative, degreeU);
+			int dv = std::min(derivative, degreeV);
+
 			int uSpanIndex = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, uv.GetU());
-			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, derivative, knotVectorU, uv.GetU());
+			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, du, knotVectorU, uv.GetU());
 
 			int vSpanIndex = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, uv.GetV());
-			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, derivative, knotVectorV, uv.GetV());
-
-			int du = std::min(derivative, degreeU);
-			int dv = std::min(derivative, degreeV);
+			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, dv, knotVectorV, uv.GetV());
 
 			std::vector<T> temp(degreeV + 1);
 
-- 
2.43.0


From 3060506f53604281aeb27b90077dfc0d1cf730e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:09 +0000
Subject: [PATCH 07/65] fix: absolute values of doubles use std::abs (integer
 abs truncated weights, curvatures and error estimates)

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 10 +++++-----
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index df3b176..0d77493 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -53,7 +53,7 @@ namespace LNLib
 
 		double differ = left + right - simpson;
 		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
@@ -1500,7 +1500,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
@@ -3311,8 +3311,8 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	double abk = D.Distance(movePoint2) / controlLegLength;
 	double abk1 = C.Distance(movePoint1) / controlLegLength;
 
-	if (MathUtils::IsLessThan(abs(ak), 0.0) || MathUtils::IsLessThan(abs(ak1), 0.0) ||
-		MathUtils::IsLessThan(abs(abk), 0.0) || MathUtils::IsLessThan(abs(abk1), 0.0))
+	if (MathUtils::IsLessThan(std::abs(ak), 0.0) || MathUtils::IsLessThan(std::abs(ak1), 0.0) ||
+		MathUtils::IsLessThan(std::abs(abk), 0.0) || MathUtils::IsLessThan(std::abs(abk1), 0.0))
 	{
 		return false;
 	}
@@ -3356,7 +3356,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..001feda 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
@@ -1602,7 +1602,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / abs(curvature);
+		double radius = 1 / std::abs(curvature);
 
 		XYZ m = p0 + radius * normal;
 		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
@@ -1619,8 +1619,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		u0 = ut;
 		v0 = vt;
 
-		bool condition1 = MathUtils::IsLessThanOrEqual(abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(abs(deltaV), Constants::DoubleEpsilon);
-		bool condition2 = MathUtils::IsLessThanOrEqual((abs(deltaU) * abs(deltaU) + abs(deltaV) * abs(deltaV)), Constants::DoubleEpsilon);
+		bool condition1 = MathUtils::IsLessThanOrEqual(std::abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(std::abs(deltaV), Constants::DoubleEpsilon);
+		bool condition2 = MathUtils::IsLessThanOrEqual((std::abs(deltaU) * std::abs(deltaU) + std::abs(deltaV) * std::abs(deltaV)), Constants::DoubleEpsilon);
 
 		if (condition1 || condition2)
 		{
-- 
2.43.0


From 7749edefd2b0437a6f5b986e6f288c4823a10de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:21 +0000
Subject: [PATCH 08/65] fix: NurbsSurface::Reverse keeps both knot vectors, the
 net size and reverses both directions for All

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 001feda..cfc1285 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -481,6 +481,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -529,7 +531,7 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else if (direction == SurfaceDirection::VDirection)
 	{
 		int size = controlPoints.size();
-		std::vector<std::vector<XYZW>> newControlPoints(size);
+		std::vector<std::vector<XYZW>> newControlPoints;
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
@@ -540,6 +542,10 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else
 	{
 		std::reverse(controlPoints.begin(), controlPoints.end());
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		result.ControlPoints = controlPoints;
 	}
 
-- 
2.43.0


From e25ea9db1464a8fe46cd4b3f9784abbf39b96144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:32 +0000
Subject: [PATCH 09/65] fix: NurbsSurface::Reparametrize rescales when only one
 direction keeps its range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index cfc1285..5c52020 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1647,7 +1647,7 @@ void LNLib::NurbsSurface::Reparametrize(const LN_NurbsSurface& surface, double m
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 
-	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) ||
+	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) &&
 		(MathUtils::IsAlmostEqualTo(minV, knotVectorV[0]) && MathUtils::IsAlmostEqualTo(maxV, knotVectorV[knotVectorV.size() - 1])))
 	{
 		result = surface;
-- 
2.43.0


From 370eb0235d238f5b0d568cfe3aa24a6c1209a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:56 +0000
Subject: [PATCH 10/65] fix: Matrix4d::IsIdentity and IsTranslation compare
 every element (opposite off-diagonal terms cancelled in a sum)

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 45 ++++++-------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..e29e294 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -347,30 +347,15 @@ double LNLib::Matrix4d::GetDeterminant()
 
 bool LNLib::Matrix4d::IsIdentity()
 {
-	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
-	if (!c1)
-	{
-		return false;
-	}
-	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
-	if (!c2)
-	{
-		return false;
-	}
-	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
-	if (!c3)
-	{
-		return false;
-	}
-
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	if (!c4)
+	for (int i = 0; i < 4; i++)
 	{
-		return false;
+		for (int j = 0; j < 4; j++)
+		{
+			if (!MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], i == j ? 1.0 : 0.0))
+			{
+				return false;
+			}
+		}
 	}
 	return true;
 }
@@ -384,17 +369,9 @@ bool LNLib::Matrix4d::HasReflection()
 
 bool LNLib::Matrix4d::IsTranslation()
 {
-	bool c1 = MathUtils::IsAlmostEqualTo(m_matrix4d[0][0], 1);
-	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
-	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
-
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	return c1 && c2 && c3 && c4;
+	Matrix4d linear = *this;
+	linear.SetBasisW(XYZ(0, 0, 0));
+	return linear.IsIdentity();
 }
 
 
-- 
2.43.0


From 846a4db869cca92d8760eec90c2b9399dcbbe14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 11/65] fix: NurbsCurve::Extract returns the part of the curve
 between the two parameters

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 30 +++++++++----------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 0d77493..f0bc1e8 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1603,28 +1603,20 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 	VALIDATE_ARGUMENT_RANGE(endParameter, knotVector[0], knotVector[knotVector.size() - 1]);
 	VALIDATE_ARGUMENT(MathUtils::IsLessThan(startParameter, endParameter), "endParameter", "startParameter must less than endParameter.");
 
-	LN_NurbsCurve tempCurve = curve;
-
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve tail = curve;
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(curve, startParameter, left, right))
+	{
+		tail = right;
 	}
 
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	LN_NurbsCurve part = tail;
+	if (SplitAt(tail, endParameter, left, right))
+	{
+		part = left;
 	}
-
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = part;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From 31cac322fc0dd4df89befe93d25227464158dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 12/65] fix: curvature, normal and torsion of a curve are
 correct where |C'| is 1 but the curve is not arc-length parametrised

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 42 +++++--------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f0bc1e8..24c08cf 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -313,10 +313,6 @@ double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ d1 = derivatives[1];
 	XYZ d2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(d1.Length(), 1.0))
-	{
-		return d2.Length();
-	}
 	double numerator = d1.CrossProduct(d2).Length();
 	double denominator = pow(d1.Length(), 3);
 	return numerator / denominator;
@@ -333,29 +329,14 @@ LNLib::XYZ LNLib::NurbsCurve::Normal(const LN_NurbsCurve& curve, CurveNormal nor
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
+	XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
+	if (normalType == CurveNormal::Binormal)
 	{
-		XYZ curveNormal = der2 / der2.Length();
-		if (normalType == CurveNormal::Normal)
-		{
-			return curveNormal;
-		}
-		else
-		{
-			return tangent.CrossProduct(curveNormal);
-		}
+		return b;
 	}
 	else
 	{
-		XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
-		if (normalType == CurveNormal::Binormal)
-		{
-			return b;
-		}
-		else
-		{
-			return b.Normalize().CrossProduct(tangent.Normalize());
-		}
+		return b.Normalize().CrossProduct(tangent.Normalize());
 	}
 }
 
@@ -431,18 +412,9 @@ double LNLib::NurbsCurve::Torsion(const LN_NurbsCurve& curve, double paramT)
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
 	XYZ der3 = derivatives[3];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = der2.DotProduct(der2);
-		return numerator / denominator;
-	}
-	else
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
-		return numerator / denominator;
-	}
+	double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
+	double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
+	return numerator / denominator;
 }
 
 int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot, int times, LN_NurbsCurve& result)
-- 
2.43.0


From 75a0b32f9af9d5baee8764efe557140e17b30a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 13/65] fix: GetInsertedKnotElement counts the multiplicity of
 interior start and end parameters

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..5949a48 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -87,9 +87,6 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		if (MathUtils::IsAlmostEqualTo(k, startParam)) {
 			++startMulti;
 		}
-		else {
-			break; 
-		}
 	}
 
 	if (startMulti < degree + 1) { 
@@ -104,9 +101,6 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		if (MathUtils::IsAlmostEqualTo(*it, endParam)) {
 			++endMulti;
 		}
-		else {
-			break;
-		}
 	}
 
 	if (endMulti < degree + 1) {
-- 
2.43.0


From ca135b8c8ca642683867c32542abc52647840664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 14/65] fix: Polynomials::Bernstein runs the full recurrence
 for interior indices

---
 src/LNLib/Algorithm/Polynomials.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index 124a398..b9fc014 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -49,7 +49,7 @@ double Polynomials::Bernstein(int index, int degree, double paramT)
 	temp[degree - index] = 1.0;
 	double t1 = 1.0 - paramT;
 
-	for (int k = index; k <= degree; k++)
+	for (int k = 1; k <= degree; k++)
 	{
 		for (int j = degree; j >= k; j--)
 		{
-- 
2.43.0


From f802510f82b0d3047d35515b26d03e7ce4ccd144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:16 +0000
Subject: [PATCH 15/65] fix: GetPointOnQuadraticArc divides each control point
 by its own weight

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..fb3fb51 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -29,9 +29,9 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	double w0 = startPoint.GetW();
 	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX() / w1, middlePoint.GetWY() / w1, middlePoint.GetWZ() / w1);
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX() / w2, endPoint.GetWY() / w2, endPoint.GetWZ() / w2);
 
 	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
-- 
2.43.0


From de5d221319afc27caa719cefa2234388e520b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:21 +0000
Subject: [PATCH 16/65] fix: NurbsCurve::CreateArc uses the tangents of the
 ellipse, not of the unit circle

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 24c08cf..098b143 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1798,7 +1798,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = -sin(startRad) * nX + cos(startRad) * nY;
+	XYZ T0 = -xRadius * sin(startRad) * nX + yRadius * cos(startRad) * nY;
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1808,7 +1808,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = -sin(angle) * nX + cos(angle) * nY;
+		XYZ T2 = -xRadius * sin(angle) * nX + yRadius * cos(angle) * nY;
 
 		double param0, param2 = 0.0;
 		XYZ P1;
-- 
2.43.0


From 087814f0660216d6e85907a13f57e9740997db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:21 +0000
Subject: [PATCH 17/65] fix: NurbsCurve::SplitArc returns its weight and splits
 arcs with a finite apex

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 ++++++----
 src/LNLib/include/NurbsCurve.h          |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 098b143..d04ac4f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1898,12 +1898,14 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
-	insertPointAtStartSide = start + projectPoint;
-	insertPointAtEndSide = end + projectPoint;
+	// A weight of zero means that projectPoint is an infinite control point (a direction).
+	XYZ weightedPoint = MathUtils::IsAlmostEqualTo(projectPointWeight, 0.0) ? projectPoint : projectPointWeight * projectPoint;
+	insertPointAtStartSide = (start + weightedPoint) / (1.0 + projectPointWeight);
+	insertPointAtEndSide = (end + weightedPoint) / (1.0 + projectPointWeight);
 	splitPoint = (insertPointAtStartSide + insertPointAtEndSide) / 2.0;
-	insertWeight = std::sqrt(1 + projectPointWeight) / 2.0;
+	insertWeight = std::sqrt((1.0 + projectPointWeight) / 2.0);
 }
 
 bool LNLib::NurbsCurve::CreateOpenConic(const XYZ& start, const XYZ& startTangent, const XYZ& end, const XYZ& endTangent, const XYZ& pointOnConic, LN_NurbsCurve& curve)
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From fd31768cb4b364b6e79d61d631353946e24eced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 18/65] fix: volume derivatives sum the v direction over the
 right temporary and are zero above the degree

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..e0b7e31 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -223,13 +223,13 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 	double w = uvw.GetW();
 
 	int uspan = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, u);
-	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, derivative, kvU, u);
+	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, du, kvU, u);
 
 	int vspan = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, v);
-	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, derivative, kvV, v);
+	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, dv, kvV, v);
 
 	int wspan = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, w);
-	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, derivative, kvW, w);
+	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, dw, kvW, w);
 
 	for (int a = 0; a <= du; ++a)
 	{
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From bc3c070715b4648851a110ae73a23cc4eb3ac27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 19/65] fix: NurbsVolume::InsertKnot limits the insertion to
 the admissible multiplicity like NurbsSurface::InsertKnot

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e0b7e31..fd355d2 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -352,6 +352,16 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 	int m = controlPoints[0].size() - 1;
 	int l = controlPoints[0][0].size() - 1;
 
+	int degree = direction == VolumeDirection::U ? degreeU : direction == VolumeDirection::V ? degreeV : degreeW;
+	const std::vector<double>& knotVector = direction == VolumeDirection::U ? kvU : direction == VolumeDirection::V ? kvV : kvW;
+	int multiplicity = LNLib::Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
+	if (multiplicity >= degree)
+	{
+		result = volume;
+		return;
+	}
+	times = std::min(times, degree - multiplicity);
+
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
 	result.DegreeW = degreeW;
-- 
2.43.0


From 54adfcb8d369353ae5c3cf82b8eb0cc3c24e0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 20/65] fix: NurbsVolume::RefineKnotVector sizes its control
 net for every inserted knot

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index fd355d2..064b194 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -875,7 +875,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From 22f87fb42533f1836e4cec2304e17fb57a61eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 21/65] fix: NurbsVolume::ElevateDegree sizes its control net
 by the number of distinct interior knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 33 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 064b194..3622640 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1026,9 +1026,14 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 		std::vector<double> newkvV = kvV;
 		std::vector<double> newkvW = kvW;
 
-		int startIdx = degreeU + 1;
-		int endIdx = static_cast<int>(kvU.size()) - (degreeU + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = degreeU + 1; i < static_cast<int>(kvU.size()) - (degreeU + 1); i++)
+		{
+			if (!LNLib::MathUtils::IsAlmostEqualTo(kvU[i], kvU[i - 1]))
+			{
+				uniqueCount++;
+			}
+		}
 		int nh = n + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(nh + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1076,9 +1081,14 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 		std::vector<double> newkvV;
 		std::vector<double> newkvW = kvW;
 
-		int startIdx = degreeV + 1;
-		int endIdx = static_cast<int>(kvV.size()) - (degreeV + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = degreeV + 1; i < static_cast<int>(kvV.size()) - (degreeV + 1); i++)
+		{
+			if (!LNLib::MathUtils::IsAlmostEqualTo(kvV[i], kvV[i - 1]))
+			{
+				uniqueCount++;
+			}
+		}
 		int mh = m + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(mh + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -1126,9 +1136,14 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 		std::vector<double> newkvV = kvV;
 		std::vector<double> newkvW;
 
-		int startIdx = degreeW + 1;
-		int endIdx = static_cast<int>(kvW.size()) - (degreeW + 1);
-		int uniqueCount = endIdx - startIdx;
+		int uniqueCount = 0;
+		for (int i = degreeW + 1; i < static_cast<int>(kvW.size()) - (degreeW + 1); i++)
+		{
+			if (!LNLib::MathUtils::IsAlmostEqualTo(kvW[i], kvW[i - 1]))
+			{
+				uniqueCount++;
+			}
+		}
 		int lh = l + (uniqueCount + 1) * times;
 
 		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(lh + 1)));
-- 
2.43.0


From e58ab50842e3dbc52ff8290800b20268f57ef432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 22/65] fix: NurbsVolume::Reverse allocates its control net for
 every direction

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3622640..c67005d 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1450,7 +1450,7 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 	int m = controlPoints[0].size() - 1;
 	int l = controlPoints[0][0].size() - 1;
 
-	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
+	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
@@ -1461,8 +1461,6 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvS = kvV;
 		std::vector<double> kvT = kvW;
 
-		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-
 		std::vector<double> kvR;
 
 		for (int sep = 0; sep <= l; sep++)
-- 
2.43.0


From e5336d1c5634389fb0e9a2e04895a6076343379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:52 +0000
Subject: [PATCH 23/65] fix: NurbsVolume::Swap accepts its two directions in
 either order

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index c67005d..9af262e 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1581,6 +1581,11 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	int degreeV = volume.DegreeV;
 	int degreeW = volume.DegreeW;
 
+	if (static_cast<int>(direction) > static_cast<int>(swap))
+	{
+		std::swap(direction, swap);
+	}
+
 	std::vector<double> kvU = volume.KnotVectorU;
 	std::vector<double> kvV = volume.KnotVectorV;
 	std::vector<double> kvW = volume.KnotVectorW;
-- 
2.43.0


From 7c51f935cfba282ebb4df1c8b645383d72c0c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:07 +0000
Subject: [PATCH 24/65] fix: NurbsVolume::Extract hands the surface back with
 its degrees and knots for every parameter

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 45 ++++++++++-------------
 src/LNLib/include/NurbsVolume.h           |  2 +-
 2 files changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 9af262e..4980f64 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -680,7 +680,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
@@ -728,12 +728,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
+
+		newDegreeU = degreeV;
+		newDegreeV = degreeW;
+		newKvU = kvV;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::V)
 	{
@@ -773,21 +773,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 			for (size_t i = 0; i < controlPoints.size(); ++i) {
 				Pwc[i] = controlPoints[i][k - s];
 			}
-
-			std::vector<std::vector<LNLib::XYZW>> tempPwc(Pwc.size());
-			for (size_t i = 0; i < Pwc.size(); ++i) {
-				tempPwc[i].resize(Pwc[i].size());
-				for (size_t j = 0; j < Pwc[i].size(); ++j) {
-					tempPwc[i][j] = Pwc[i][j];
-				}
-			}
-			Pwc = tempPwc;
-
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeW;
+		newKvU = kvU;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::W)
 	{
@@ -836,12 +827,16 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeV;
+		newKvU = kvU;
+		newKvV = kvV;
+	}
+	else
+	{
+		return false;
 	}
 
 	surface.DegreeU = newDegreeU;
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From 98066061a1320f5a3a9ccd5be564ec9ba239f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:45 +0000
Subject: [PATCH 25/65] fix: CreateRevolvedSurface rotates correctly about an
 axis that is not a unit vector

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5c52020..34d51e3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1910,6 +1910,7 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 
 	int m = profile.ControlPoints.size() - 1;
 	XYZ X, Y, O, P0, P2, T0, T2;
+	XYZ unitAxis = const_cast<XYZ&>(axis).Normalize();
 	double r = 0.0;
 	int index = 0;
 
@@ -1925,7 +1926,7 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 		X = p - O;
 
 		r = X.Normalize().Length();
-		Y = axis.CrossProduct(X);
+		Y = unitAxis.CrossProduct(X);
 
 		if (MathUtils::IsGreaterThan(r, 0.0))
 		{
-- 
2.43.0


From a4eff3c7075cdc5e43d9f00dbb5c20a80fc6dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:45 +0000
Subject: [PATCH 26/65] fix: NonUniformScaling returns weighted control points
 for weights other than one

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 34d51e3..dd92f32 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1999,7 +1999,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -2021,7 +2021,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From 5b3beb16460e1bb2faa43bb44d0ac6a1d6ffc374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:45 +0000
Subject: [PATCH 27/65] fix: CreateCoonsSurface orients its three parts alike
 so that the patch interpolates all four curves

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index dd92f32..0f3e2f0 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3241,8 +3241,9 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 
 	LN_NurbsSurface ruledSurface0;
 	{
-		std::vector<std::vector<XYZW>> cps;
-		CreateRuledSurface(n0, n2, ruledSurface0);
+		LN_NurbsSurface ts;
+		CreateRuledSurface(n0, n2, ts);
+		Reverse(ts, SurfaceDirection::UDirection, ruledSurface0);
 	}
 
 	LN_NurbsSurface ruledSurface1;
@@ -3264,7 +3265,7 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 		std::vector<double> kv_u;
 		std::vector<double> kv_v;
 		std::vector<std::vector<XYZW>> cps;
-		CreateBilinearSurface(point00, point01, point10, point11, bilinearSurface);
+		CreateBilinearSurface(point10, point11, point00, point01, bilinearSurface);
 	}
 
 	{
-- 
2.43.0


From 66883d347b8d1662c0447ccf04857bca518228e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 28/65] fix: three-point ComputeTangent uses the Bessel weights
 and divides by the non-zero parameter step

---
 src/LNLib/Algorithm/Interpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..62d6e9b 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -405,13 +405,13 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
-			double a = w2 / (w1 + w2);
+			double a = w1 / (w1 + w2);
 			tangents[i] = a * (dP[i - 1] / du[i - 1]) + (1 - a) * (dP[i] / du[i]);
 		}
 	}
-- 
2.43.0


From fd462b736f80bda8bbcdc67742f2245b614be645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 29/65] fix: five-point ComputeTangent no longer divides zero
 by zero for collinear points

---
 src/LNLib/Algorithm/Interpolation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index 62d6e9b..e99159b 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -26,7 +26,13 @@ namespace LNLib
 
 	double Getak(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
 	{
-		return (qk_1.CrossProduct(qk)).Length() / ((qk_1.CrossProduct(qk).Length()) + (qk1.CrossProduct(qk2)).Length());
+		double before = (qk_1.CrossProduct(qk)).Length();
+		double after = (qk1.CrossProduct(qk2)).Length();
+		if (MathUtils::IsAlmostEqualTo(before + after, 0.0))
+		{
+			return 1.0;
+		}
+		return before / (before + after);
 	}
 
 	XYZ GetTk(const XYZ& qk_1, const XYZ& qk, const XYZ& qk1, const XYZ& qk2)
-- 
2.43.0


From 85c35a9d8b05afffffd1912e47f66bbf035fd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 30/65] fix: GlobalInterpolation with tangents uses knots for
 which the system has a solution (degrees 2 and 3)

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d04ac4f..3bd18ef 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2103,7 +2103,7 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 		for (int i = 0; i < size - 1; ++i)
 		{
 			knotVector[degree + 2 * i] = uk[i];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i + 1] = (uk[i] + uk[i + 1]) / 2.0;
 		}
 	}
 	else if (degree == 3)
@@ -2117,8 +2117,8 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 		knotVector[5] = uk[1];
 		for (int i = 1; i < size - 2; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i + 1];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 1 + 2 * i] = uk[i + 1];
+			knotVector[degree + 1 + 2 * i + 1] = uk[i + 1];
 		}
 		knotVector[knotVector.size() - 6] = uk[size - 2];
 		knotVector[knotVector.size() - 5] = uk[size - 2];
-- 
2.43.0


From a384a2757efe674d1f3dfe84b9075b27238f4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 31/65] fix: CubicLocalInterpolation repeats the knots of its
 Bezier segments so that the curve passes through the points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3bd18ef..32bd068 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2244,10 +2244,14 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 		knotVector[knotVector.size() - 1 - i] = 1.0;
 	}
 
-	double step = 1.0 / (numCtrlPts - degree);
-	for (int i = 1; i <= numCtrlPts - degree - 1; ++i)
+	double length = 0.0;
+	for (int i = 1; i < size - 1; ++i)
 	{
-		knotVector[degree + i] = i * step;
+		length += chordLengths[i - 1];
+		for (int j = 0; j < degree; ++j)
+		{
+			knotVector[degree * i + 1 + j] = length / totalLength;
+		}
 	}
 
 	curve.Degree = degree;
-- 
2.43.0


From 881bfc429c664ba6d9882b0e99f4581162c9124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 32/65] fix: NurbsSurface::GlobalInterpolation passes through
 the points (rows are the u direction), also for non-square grids

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 0f3e2f0..037d250 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2165,8 +2165,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	int rows = static_cast<int>(throughPoints.size());
 	int cols = static_cast<int>(throughPoints[0].size());
 
-	VALIDATE_ARGUMENT(cols > degreeU, "throughPoints", "Column size must be greater than degreeU.");
-	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
+	VALIDATE_ARGUMENT(rows > degreeU, "throughPoints", "Row size must be greater than degreeU.");
+	VALIDATE_ARGUMENT(cols > degreeV, "throughPoints", "Column size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
 	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
@@ -2186,8 +2186,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				A[eqIdx][ctrlIdx] = 1.0;
 			}
 			else {
-				double u = uk[j];
-				double v = vl[i];
+				double u = uk[i];
+				double v = vl[j];
 
 				int spanU = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, u);
 				int spanV = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, v);
@@ -2198,12 +2198,12 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 				Polynomials::BasisFunctions(spanU, degreeU, knotVectorU, u, basisU);
 				Polynomials::BasisFunctions(spanV, degreeV, knotVectorV, v, basisV);
 
-				for (int l = 0; l <= degreeV; ++l) {
-					int ctrlRow = spanV - degreeV + l;
+				for (int k = 0; k <= degreeU; ++k) {
+					int ctrlRow = spanU - degreeU + k;
 					if (ctrlRow < 0 || ctrlRow >= rows) continue;
 
-					for (int k = 0; k <= degreeU; ++k) {
-						int ctrlCol = spanU - degreeU + k;
+					for (int l = 0; l <= degreeV; ++l) {
+						int ctrlCol = spanV - degreeV + l;
 						if (ctrlCol < 0 || ctrlCol >= cols) continue;
 
 						int ctrlIdx = ctrlRow * cols + ctrlCol;
-- 
2.43.0


From e357a789e6da314c058287792051ce7a017377b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 33/65] fix: BicubicLocalInterpolation builds the C1 bicubic
 surface through the points (tangents, inner control points and double knots)

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 41 +++++++++------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 037d250..ec95ff2 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -78,11 +78,14 @@ namespace LNLib
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
-		ind.reserve(size);
-		for (int i = 0; i < size; ++i)
+		ind.reserve(2 * size);
+		ind.push_back(0);
+		for (int i = 0; i < size - 1; ++i)
 		{
-			ind.push_back(3 * i);
+			ind.push_back(3 * i + 1);
+			ind.push_back(3 * i + 2);
 		}
+		ind.push_back(3 * size - 3);
 		return ind;
 	}
 }
@@ -2279,7 +2282,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		r[l] = 0.0;
 		for (int k = 0; k <= n; k++)
 		{
-			td[k][l][1] = tvkl[k];
+			td[k][l][0] = tvkl[k];
 
 			if (k > 0)
 			{
@@ -2305,7 +2308,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		s[k] = 0.0;
 		for (int l = 0; l <= m; l++)
 		{
-			td[k][l][0] = tukl[l];
+			td[k][l][1] = tukl[l];
 
 			if (l > 0)
 			{
@@ -2324,16 +2327,6 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	}
 	vb[m] = 1.0;
 
-	std::vector<double> rowTotalLen(row);
-	std::vector<double> colTotalLen(column);
-	for (int i = 0; i < row; ++i) {
-		rowTotalLen[i] = Interpolation::GetTotalChordLength(throughPoints[i]);
-	}
-	for (int j = 0; j < column; ++j) {
-		auto col = MathUtils::GetColumn(throughPoints, j);
-		colTotalLen[j] = Interpolation::GetTotalChordLength(col);
-	}
-
 	std::vector<std::vector<XYZ>> bezierControlPoints(3 * row - 2, std::vector<XYZ>(3 * column - 2, XYZ(0, 0, 0)));
 
 	for (int i = 0; i < row; i++)
@@ -2351,9 +2344,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = vb[j + 1] - vb[j];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
-			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
+			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j + 1];
 		}
 		bezierControlPoints[3 * i] = temp;
 	}
@@ -2374,9 +2367,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = ub[i + 1] - ub[i];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
-			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
+			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i + 1];
 		}
 		for (int i = 0; i < static_cast<int>(temp.size()); i++)
 		{
@@ -2431,15 +2424,17 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 
 	knotVectorU.resize(nu + degreeU + 1);
 	for (int i = 0; i <= degreeU; ++i) knotVectorU[i] = 0.0;
-	for (int i = 1; i < nu - degreeU; ++i) {
-		knotVectorU[degreeU + i] = ub[i];
+	for (int i = 1; i < n; ++i) {
+		knotVectorU[degreeU + 2 * i - 1] = ub[i];
+		knotVectorU[degreeU + 2 * i] = ub[i];
 	}
 	for (int i = nu; i < static_cast<int>(knotVectorU.size()); ++i) knotVectorU[i] = 1.0;
 
 	knotVectorV.resize(nv + degreeV + 1);
 	for (int i = 0; i <= degreeV; ++i) knotVectorV[i] = 0.0;
-	for (int i = 1; i < nv - degreeV; ++i) {
-		knotVectorV[degreeV + i] = vb[i];
+	for (int i = 1; i < m; ++i) {
+		knotVectorV[degreeV + 2 * i - 1] = vb[i];
+		knotVectorV[degreeV + 2 * i] = vb[i];
 	}
 	for (int i = nv; i < static_cast<int>(knotVectorV.size()); ++i) knotVectorV[i] = 1.0;
 
-- 
2.43.0


From 37280e66f7ea45eedec619c190d2aa2f75532cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 34/65] fix: NurbsCurve::ProjectNormal no longer writes past
 its array for closed curves and keeps the normals perpendicular

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 32bd068..cbec70d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -382,19 +382,19 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
 		{
-			XYZ Ti1 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i + 1])[1].Normalize();
-			XYZ bi = Baver[i + 1] + Ti1;
+			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			XYZ bi = Baver[i + 1] - (Baver[i + 1].DotProduct(Ti)) * Ti;
 			Baver[i] = bi.Normalize();
 		}
 
 		for (int i = 1; i <= m - 1; i++)
 		{
-			Blist[i] = 0.5 * (Blist[i] + Baver[i]);
+			Blist[i] = (0.5 * (Blist[i] + Baver[i])).Normalize();
 		}
 	}
 	return Blist;
-- 
2.43.0


From 3570758e8026fd471436d4ba4de0a867153594c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 35/65] fix: CreateGordonSurface interpolates its points with
 the degrees of their directions

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index ec95ff2..3fdc215 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2986,7 +2986,7 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 
 	int degreeU = std::min(columns - 1, degree_u_max);
 	int degreeV = std::min(rows - 1, degree_v_max);
-	GlobalInterpolation(intersectionPoints, degreeU, degreeV, ts);
+	GlobalInterpolation(intersectionPoints, degreeV, degreeU, ts);
 	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
 	LN_NurbsSurface interpolatedSurface;
 	Swap(ts, interpolatedSurface);
-- 
2.43.0


From 0e236a9cdc374b7f0777686b4a54967669e82a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 36/65] fix: CreateLoftSurface brings sections with different
 knots to common knots

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 3fdc215..94f2ef5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2638,10 +2638,26 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			current.KnotVector = tc.KnotVector;
 			current.ControlPoints = tc.ControlPoints;
 		}
-		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
 
+	std::vector<std::vector<double>> knotVectors(size);
+	for (int k = 0; k < size; k++)
+	{
+		knotVectors[k] = internals[k].KnotVector;
+	}
+	auto insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectors);
+	for (int k = 0; k < size; k++)
+	{
+		if (insertElements[k].size() > 0)
+		{
+			LN_NurbsCurve tc;
+			NurbsCurve::RefineKnotVector(internals[k], insertElements[k], tc);
+			internals[k] = tc;
+		}
+		curvesControlPoints[k] = internals[k].ControlPoints;
+	}
+
 	int degreeU = degree_max;
 	int degreeV = degree_max;
 
-- 
2.43.0


From 675209c611b0f5f7dd75997db79b57b9d31db5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 37/65] fix: CreateLoftSurface skips control points that all
 sections share when it spaces the sections

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 94f2ef5..811a75d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2673,6 +2673,7 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			std::vector<XYZW> current = curvesControlPoints[k];
 			int n = current.size() - 1;
 			double sum = 0.0;
+			int count = 0;
 			for (int i = 0; i <= n; i++)
 			{
 				double delta = curvesControlPoints[k][i].ToXYZ(true).Distance(curvesControlPoints[k - 1][i].ToXYZ(true));
@@ -2684,10 +2685,15 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 				}
 
 				double di = Interpolation::GetTotalChordLength(tempPoints);
+				if (MathUtils::IsAlmostEqualTo(di, 0.0))
+				{
+					continue;
+				}
 				sum += delta / di;
+				count++;
 			}
 
-			vl[k] = vl[k - 1] + (1.0 / (n + 1)) * sum;
+			vl[k] = vl[k - 1] + (count > 0 ? sum / count : 1.0 / K);
 		}
 	}
 	else
-- 
2.43.0


From 202b0e7ac5f968504c173c142cc6529a43cfaedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:29 +0000
Subject: [PATCH 38/65] fix: CreateLoftSurface interpolates weighted sections
 in homogeneous coordinates

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 811a75d..440c7e3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2707,21 +2707,21 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	for (int c = 0; c < column; c++)
 	{
 		std::vector<XYZ> temp(size);
-		std::vector<double> weightCache(size);
+		std::vector<XYZ> weights(size);
 		for (int k = 0; k < size; k++)
 		{
 			XYZW cp = curvesControlPoints[k][c];
-			double w = cp.GetW();
-			weightCache[k] = w;
-			temp[k] = XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w);
+			weights[k] = XYZ(cp.GetW(), 0, 0);
+			temp[k] = XYZ(cp.GetWX(), cp.GetWY(), cp.GetWZ());
 		}
 		LN_NurbsCurve tc;
 		NurbsCurve::GlobalInterpolation(degreeV, temp, tc, vl);
+		LN_NurbsCurve wc;
+		NurbsCurve::GlobalInterpolation(degreeV, weights, wc, vl);
 		for (int i = 0; i < tc.ControlPoints.size(); i++)
 		{
 			XYZW cp = tc.ControlPoints[i];
-			double w = cp.GetW();
-			tc.ControlPoints[i] = XYZW(XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w), weightCache[i]);
+			tc.ControlPoints[i] = XYZW(cp.GetWX(), cp.GetWY(), cp.GetWZ(), wc.ControlPoints[i].GetWX());
 		}
 		controlPoints.emplace_back(tc.ControlPoints);
 	}
-- 
2.43.0


From 1faf6f810ed989198938e060c738605dcfa02a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 39/65] fix: CreateSweepSurface places its sections with an
 orthonormal frame

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 440c7e3..190468b 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2819,8 +2819,8 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 		// Build local coordinate system for the section.
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(trajectoryCopy, 1, vk[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(trajectoryCopy.Degree, trajectoryCopy.KnotVector, vk[k]);
-		const XYZ& xdir = Bv[spanIndex];
-		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
+		XYZ ydir = zdir.CrossProduct(Bv[spanIndex]).Normalize();
+		XYZ xdir = ydir.CrossProduct(zdir);
 
 		// Transform the input profile to the lofting position.
 		std::vector<XYZW> transformedControlPoints(profileCpSize);
@@ -2873,8 +2873,8 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	{
 		XYZ zdir = NurbsCurve::ComputeRationalCurveDerivatives(path, 1, segments[k])[1].Normalize();
 		int spanIndex = Polynomials::GetKnotSpanIndex(path.Degree, path.KnotVector, segments[k]);
-		XYZ xdir = Bv[spanIndex];
-		XYZ ydir = zdir.CrossProduct(xdir).Normalize();
+		XYZ ydir = zdir.CrossProduct(Bv[spanIndex]).Normalize();
+		XYZ xdir = ydir.CrossProduct(zdir);
 
 		std::vector<XYZW> transformedControlPoints(profileCpSize);
 		for (int i = 0; i < profileCpSize; i++)
-- 
2.43.0


From de7544e444898bfcaa4f901a645a12daf3bae768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 40/65] fix: CreateSweepSurface with a custom degree always
 ends at the end of the trajectory

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 190468b..1a76a82 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2859,10 +2859,11 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	std::vector<double> segments(nsect);
 	segments[0] = 0.0;
 	std::vector<double> params = NurbsCurve::GetParamsOnCurve(path, stepLength);
-	for (int i = 0; i < params.size(); i++)
+	for (int i = 0; i < params.size() && i < nsect - 2; i++)
 	{
 		segments[i + 1] = params[i];
 	}
+	segments[nsect - 1] = 1.0;
 
 	std::vector<XYZ> Bv = NurbsCurve::ProjectNormal(path);
 	const std::vector<XYZW>& profileControlPoints = profile.ControlPoints;
-- 
2.43.0


From 51adde18c532ecd26d09fa92d11d79e462a2399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 41/65] fix: Triangulate covers the whole parameter domain of
 the surface, not only [0,1]

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1a76a82..5955e03 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3919,13 +3919,18 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		std::vector<std::vector<XYZ>> points(resolutionU, std::vector<XYZ>(resolutionV));
 		std::vector<std::vector<UV>> uvs(resolutionU, std::vector<UV>(resolutionV));
 
+		double minU = surface.KnotVectorU[0];
+		double maxU = surface.KnotVectorU[surface.KnotVectorU.size() - 1];
+		double minV = surface.KnotVectorV[0];
+		double maxV = surface.KnotVectorV[surface.KnotVectorV.size() - 1];
+
 		for (int i = 0; i < resolutionU; ++i)
 		{
 			double u = (double)i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
 				double v = (double)j / (resolutionV - 1);
-				points[i][j] = GetPointOnSurface(surface, UV(u, v));
+				points[i][j] = GetPointOnSurface(surface, UV(minU + (maxU - minU) * u, minV + (maxV - minV) * v));
 				uvs[i][j] = { u, v };
 			}
 		}
-- 
2.43.0


From 139bdc7ca3323b01cb3403e41fdbcba72672ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 42/65] fix: Tessellate also refines spans whose middle happens
 to lie on the chord

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index cbec70d..4690d39 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -107,6 +107,13 @@ namespace LNLib
 		XYZ chordMid = (p0 + p2) * 0.5;
 		double deviation = p1.Distance(chordMid);
 
+		// The middle alone also lies on the chord where the curve is symmetric about it.
+		for (int i = 1; i <= curve.Degree; i++) {
+			double ratio = (double)i / (curve.Degree + 1);
+			XYZ point = NurbsCurve::GetPointOnCurve(curve, start + (end - start) * ratio);
+			deviation = std::max(deviation, point.Distance(p0 + (p2 - p0) * ratio));
+		}
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(deviation,0.0)) {
 			parameters.emplace_back(mid);
 		}
-- 
2.43.0


From d9222d4df691df06727abec2e6f506181376ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:23 +0000
Subject: [PATCH 43/65] fix: ToClampCurve keeps the shape of the curve for
 every degree and knot vector

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 47 +++++++++++--------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 4690d39..f6fedfc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3544,36 +3544,31 @@ void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve&
 	int upMulti = Polynomials::GetKnotMultiplicity(knotVector, up);
 	int umpMulti = Polynomials::GetKnotMultiplicity(knotVector, ump);
 	
-	LN_NurbsCurve tc;
-	int t1 = InsertKnot(curve, up, degree + 1 - upMulti, tc);
-	LN_NurbsCurve temp;
-	temp = tc;
-	int t2 = InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
-
-	std::vector<double> kv = tc.KnotVector;
-	std::vector<XYZW> cps = tc.ControlPoints;
-	knotVector.resize(kv.size() - t1 - t2, 0.0);
-	controlPoints.resize(knotVector.size() - degree - 1);
-	for (int i = knotVector.size() - 1; i >= 0; i--)
-	{
-		knotVector[i] = kv[i + degree];
-		if (i < controlPoints.size())
-		{
-			controlPoints[i] = cps[i + degree];
-		}
+	// Raise both ends of the domain to multiplicity degree, then cut off what lies outside.
+	LN_NurbsCurve tc = curve;
+	if (upMulti < degree)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, up, degree - upMulti, tc);
 	}
+	if (umpMulti < degree)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, ump, degree - umpMulti, tc);
+	}
+
+	const std::vector<double>& kv = tc.KnotVector;
+	int first = std::upper_bound(kv.begin(), kv.end(), up) - kv.begin() - 1;
+	int last = std::lower_bound(kv.begin(), kv.end(), ump) - kv.begin();
 
-	result.Degree = tc.Degree;
+	knotVector.assign(degree + 1, up);
+	knotVector.insert(knotVector.end(), kv.begin() + first + 1, kv.begin() + last);
+	knotVector.insert(knotVector.end(), degree + 1, ump);
+	controlPoints.assign(tc.ControlPoints.begin() + (first - degree), tc.ControlPoints.begin() + last);
+
+	result.Degree = degree;
 	result.KnotVector = knotVector;
 	result.ControlPoints = controlPoints;
-
-	bool isClosed = IsClosed(curve);
-	bool isNowClosed = IsClosed(result);
-	if (isClosed && !isNowClosed)
-	{
-		controlPoints[controlPoints.size() - 1] = controlPoints[0];
-		result.ControlPoints = controlPoints;
-	}
 }
 
 bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
-- 
2.43.0


From 1a4415c6ded982b21bf8a1321362af7184f0b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:23 +0000
Subject: [PATCH 44/65] fix: NurbsCurve::IsClosed compares the two ends of the
 curve, also for unclamped curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 40 ++++---------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f6fedfc..0b0ad26 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1179,46 +1179,16 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 
 bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 {
-	std::vector<double> knotVector = curve.KnotVector;
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	// The curve runs from knot p to knot n+1 (the end knots only if it is clamped).
+	const std::vector<double>& knotVector = curve.KnotVector;
+	double first = knotVector[curve.Degree];
+	double end = knotVector[knotVector.size() - 1 - curve.Degree];
 
 	XYZ startPoint = GetPointOnCurve(curve, first);
 	XYZ endPoint = GetPointOnCurve(curve, end);
 
 	double distance = startPoint.Distance(endPoint);
-	bool isMatch = MathUtils::IsAlmostEqualTo(distance, 0.0);
-	if (isMatch) return true;
-
-	std::vector<XYZW> controlPoints = curve.ControlPoints;
-	int n = controlPoints.size() - 1;
-	XYZ last = controlPoints[n].ToXYZ(true);
-
-	bool flag = false;
-	int index = 0;
-	for (int i = 0; i < n; i++)
-	{
-		XYZ current = controlPoints[i].ToXYZ(true);
-		if (last.IsAlmostEqualTo(current))
-		{
-			index = i;
-			flag = true;
-			break;
-		}
-	}
-
-	if (!flag) return false;
-	if (index == 0) return true;
-	for (int i = index; i >= 0; i--)
-	{
-		XYZ current = controlPoints[i].ToXYZ(true);
-		XYZ another = controlPoints[n - index + i].ToXYZ(true);
-		if (!another.IsAlmostEqualTo(current))
-		{
-			return false;
-		}
-	}
-	return true;
+	return MathUtils::IsAlmostEqualTo(distance, 0.0);
 }
 
 double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ& givenPoint)
-- 
2.43.0


From 772491568489ec204c541afd2e131ae01618e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 45/65] fix: InsertKnot at the end of the domain of an
 unclamped curve keeps the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 0b0ad26..280e17d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -443,6 +443,11 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 	{
 		return 0;
 	}
+	// At the end of the domain of an unclamped curve the knot itself starts another span.
+	while (knotSpanIndex + 2 < knotVector.size() && knotVector[knotSpanIndex + 1] <= insertKnot)
+	{
+		knotSpanIndex++;
+	}
 	
 	std::vector<double> insertedKnotVector(knotVector.size() + times);
 	for (int i = 0; i <= knotSpanIndex; i++)
-- 
2.43.0


From 2d040f226bd3627cb24344e3e83424a39c6051f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:31 +0000
Subject: [PATCH 46/65] fix: Extend also extends curves whose end weight is not
 one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 280e17d..5e395de 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3853,13 +3853,22 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 	XYZ tangent = ders[1];
 
 	LN_NurbsCurve extend;
+	auto join = [&]() {
+		// Line and arc end with weight one: scale them to the weight at the extended end.
+		double weight = isFromStart ? controlPoints.front().GetW() : controlPoints.back().GetW();
+		for (XYZW& cp : extend.ControlPoints)
+		{
+			cp = cp * weight;
+		}
+		isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
+	};
 
 	switch (type)
 	{
 		case ExtensionType::Tangent:
 		{
 			isFromStart ? CreateLine(point - tangent.Normalize() * delta, point, extend): CreateLine(point, point + tangent.Normalize() * delta, extend);
-			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
+			join();
 			break;
 		}	
 		case ExtensionType::Arc:
@@ -3888,7 +3897,7 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 			}
 
 			CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend);
-			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
+			join();
 			break;
 		}
 		case ExtensionType::Natural:
-- 
2.43.0


From ca46a5b5c0af4714b8defdfffd9c64a5fe796110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:31 +0000
Subject: [PATCH 47/65] fix: IsPeriodic compares the derivatives at the ends of
 the domain

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 5e395de..a64b976 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3587,8 +3587,8 @@ bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
 		return false;
 	}
 
-	double first = knotVector[0];
-	double end = knotVector[knotVector.size() - 1];
+	double first = knotVector[degree];
+	double end = knotVector[knotVector.size() - 1 - degree];
 
 	int cFirst = KnotVectorUtils::GetContinuity(curve.Degree, knotVector, first);
 	int cEnd = KnotVectorUtils::GetContinuity(curve.Degree, knotVector, end);
-- 
2.43.0


From 508e61e558f0197c565da81e5ee033b3488cffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:27 +0000
Subject: [PATCH 48/65] fix: Tessellate keeps the knots and the end of the
 curve among its points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a64b976..46673d7 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -4145,6 +4145,9 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::Tessellate(const LN_NurbsCurve& curve
 		if (MathUtils::IsGreaterThan(u1, parameters.back())) {
 			parameters.emplace_back(u1);
 		}
+		else {
+			parameters.back() = u1;
+		}
 	}
 
 	if (parameters.empty() || !MathUtils::IsAlmostEqualTo(parameters.back(), u_end)) {
-- 
2.43.0


From 6121dadc7e49bc3b2fe5478766e50d876d945758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:30 +0000
Subject: [PATCH 49/65] fix: ControlPointReposition and WeightModification use
 the rational basis function of the moved control point

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 46673d7..52afdd2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -90,6 +90,24 @@ namespace LNLib
 		return middle;
 	}
 
+	double RationalBasisFunction(const LN_NurbsCurve& curve, int index, double parameter)
+	{
+		int degree = curve.Degree;
+		int spanIndex = Polynomials::GetKnotSpanIndex(degree, curve.KnotVector, parameter);
+		if (index < spanIndex - degree || index > spanIndex)
+		{
+			return 0.0;
+		}
+		double basis[Constants::NURBSMaxDegree + 1];
+		Polynomials::BasisFunctions(spanIndex, degree, curve.KnotVector, parameter, basis);
+		double sum = 0.0;
+		for (int i = 0; i <= degree; i++)
+		{
+			sum += basis[i] * curve.ControlPoints[spanIndex - degree + i].GetW();
+		}
+		return basis[index - spanIndex + degree] * curve.ControlPoints[index].GetW() / sum;
+	}
+
 	void TessellateCore(const LN_NurbsCurve& curve, double start, double end, std::vector<double>& parameters, int depth)
 	{
 		const int MAX_DEPTH = 20;
@@ -3160,11 +3178,8 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	VALIDATE_ARGUMENT(!moveDirection.IsZero(), "moveDirection", "MoveDirection must not be zero vector.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance,0.0), "moveDistance", "MoveDistance must not be zero.")
 
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	if (!MathUtils::IsGreaterThan(Rkp, 0.0))
 	{
 		return false;
 	}
@@ -3193,10 +3208,8 @@ void LNLib::NurbsCurve::WeightModification(const LN_NurbsCurve& curve, double pa
 	XYZ point = GetPointOnCurve(curve, parameter);
 	XYZ movePoint = const_cast<XYZW&>(controlPoints[moveIndex]).ToXYZ(true);
 	double distance =  point.Distance(movePoint);
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(Rkp, 0.0), "moveIndex", "The control point must influence the curve at the parameter.");
 	double coefficient = 1 + moveDistance / (Rkp * (distance - moveDistance));
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	updatedControlPoints[moveIndex] = XYZW(movePoint, updatedControlPoints[moveIndex].GetW() * coefficient);
-- 
2.43.0


From d21180bb1af337ec089c6ee667060c710288b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:30 +0000
Subject: [PATCH 50/65] fix: NeighborWeightsModification rejects the last
 control point, which has no right neighbour

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 52afdd2..604fdbf 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3226,7 +3226,7 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(parameter, knotVector[0], knotVector[knotVector.size() - 1]);
-	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 1);
+	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 2);
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance, 0.0), "moveDistance", "MoveDistance must not be zero.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(scale, 0.0), "scale", "Scale must not be zero.");
 
-- 
2.43.0


From 4d40e6828d59d721d370d889d4b1cba09b011acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 51/65] fix: ConstraintBasedModification uses rational basis
 functions, so that curves with weights meet the constraints

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 604fdbf..b279578 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3434,9 +3434,28 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	{
 		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, ur[Dr[i]]);
 		std::vector<std::vector<double>> ders = Polynomials::BasisFunctionsDerivatives(spanIndex, degree, Dk[i], knotVector, ur[Dr[i]]);
+		std::vector<double> weightDers(Dk[i] + 1, 0.0);
+		for (int k = 0; k <= Dk[i]; k++)
+		{
+			for (int j = 0; j <= degree; j++)
+			{
+				weightDers[k] += ders[k][j] * controlPoints[spanIndex - degree + j].GetW();
+			}
+		}
 		for (int j = 0; j <= degree; j++)
 		{
-			B[i][spanIndex - degree + j] = ders[Dk[i]][j];
+			double weight = controlPoints[spanIndex - degree + j].GetW();
+			std::vector<double> rational(Dk[i] + 1);
+			for (int k = 0; k <= Dk[i]; k++)
+			{
+				double value = ders[k][j] * weight;
+				for (int l = 1; l <= k; l++)
+				{
+					value -= MathUtils::Binomial(k, l) * weightDers[l] * rational[k - l];
+				}
+				rational[k] = value / weightDers[0];
+			}
+			B[i][spanIndex - degree + j] = rational[Dk[i]];
 		}
 	}
 
-- 
2.43.0


From 24e5013c6813da69aa460abdcb49dfd8aca8a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:42 +0000
Subject: [PATCH 52/65] fix: weighted least squares approximation applies its
 weights once, not twice on the right hand side

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b279578..82e5595 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2485,7 +2485,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 				}
 			}
 			W_vec[mu_idx] = wp;
-			S[mu_idx] = wp * throughPoints[i];
+			S[mu_idx] = throughPoints[i];
 			mu_idx++;
 		}
 		else if (MathUtils::IsLessThan(wp, 0.0)) {
@@ -2517,7 +2517,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 					}
 				}
 				W_vec[mu_idx] = wt;
-				S[mu_idx] = wt * tangentVec;
+				S[mu_idx] = tangentVec;
 				mu_idx++;
 			}
 			else if (MathUtils::IsLessThan(wt, 0.0)) {
-- 
2.43.0


From d86421a4ac7062deba2ef2aa59659c8fdf6b8125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:46 +0000
Subject: [PATCH 53/65] fix: GlobalApproximation stores its control net with
 the u direction first, matching the knot vectors

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5955e03..b9eb437 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2499,14 +2499,11 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 		}
 	}
 
-	std::vector<std::vector<XYZ>> surfaceControlPoints;
-	MathUtils::Transpose(finalControlPoints, surfaceControlPoints);
-
 	surface.DegreeU = degreeU;
 	surface.DegreeV = degreeV;
 	surface.KnotVectorU = knotVectorU;
 	surface.KnotVectorV = knotVectorV;
-	surface.ControlPoints = ControlPointsUtils::ToXYZW(surfaceControlPoints);
+	surface.ControlPoints = ControlPointsUtils::ToXYZW(finalControlPoints);
 	return true;
 }
 
-- 
2.43.0


From f112eef3fc3d125e243f009c996f2c34487e3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:09 +0000
Subject: [PATCH 54/65] fix: FitWithConic takes its weights from the conics
 through the points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 82e5595..dc1ef93 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2950,7 +2950,7 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 			return false;	
 		}
 		double wi = 0.0;
-		if (CreateOneConicArc(startPoint, V, R, V1, throughPoints[i], dummy, wi))
+		if (CreateOneConicArc(startPoint, startTangent, endPoint, endTangent, throughPoints[i], dummy, wi))
 		{
 			s = s + wi / (1 + wi);
 		}
-- 
2.43.0


From 8f57f97587bfed3581144c3f342aa784501becc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:16 +0000
Subject: [PATCH 55/65] fix: FitWithCubic intersects the line along the end
 tangent with the plane and no longer reports unfitted points as fitted

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp   | 19 +++++++++++--------
 src/LNLib/Mathematics/Utils/MathUtils.cpp |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index dc1ef93..1a895cc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3026,7 +3026,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	int dk = endPointIndex - startPointIndex;
 	bool isLine = true;
 	XYZ tempStandard(0, 0, 0);
-	for (int i = startPointIndex; i < dk + 1; i++)
+	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		XYZ tp = throughPoints[i];
 		XYZ direction = (tp - startPoint).Normalize();
@@ -3051,7 +3051,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		middleControlPoints.emplace_back(P2);
 		return true;
 	}
-	std::vector<XYZ> newThroughPoints(endPointIndex - startPointIndex + 1);
+	std::vector<XYZ> newThroughPoints;
 	for (int i = startPointIndex; i <= endPointIndex; i++)
 	{
 		newThroughPoints.emplace_back(throughPoints[i]);
@@ -3100,13 +3100,12 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 		}
 		else
 		{
-			XYZ Pd(0, 0, 0);
-			LinePlaneIntersectionType type0 = Intersection::ComputeLineAndPlane(normalPi, startPoint, throughPoints[k + startPointIndex], startTangent, Pd);
-			if (!(type0 == LinePlaneIntersectionType::Intersecting)) continue;
+			if (!(type == LinePlaneIntersectionType::Intersecting)) return false;
+			XYZ Pd = intersectPoint;
 			double param0 = 0.0; double param1 = 0.0;
 			XYZ Pc(0, 0, 0);
 			CurveCurveIntersectionType type1 = Intersection::ComputeRays(startPoint, endPoint - startPoint, Pd, startTangent, param0, param1, Pc);
-			if (!(type1 == CurveCurveIntersectionType::Intersecting)) continue;
+			if (!(type1 == CurveCurveIntersectionType::Intersecting)) return false;
 			double gamma = Pc.Distance(endPoint) / startPoint.Distance(endPoint);
 			if (MathUtils::IsLessThan(gamma, 0.0) || MathUtils::IsGreaterThan(gamma, 1.0))
 			{
@@ -3119,8 +3118,12 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 			}
 			else
 			{
-				double a = Pc.Distance(Pd);
-				double b = -Pd.Distance(throughPoints[k + startPointIndex]);
+				double a = (Pd - Pc).DotProduct(startTangent) / startTangent.DotProduct(startTangent);
+				double b = (throughPoints[k + startPointIndex] - Pd).DotProduct(endTangent) / endTangent.DotProduct(endTangent);
+				if (!MathUtils::IsGreaterThan(a, 0.0) || !MathUtils::IsLessThan(b, 0.0))
+				{
+					return false;
+				}
 				double b13 = Polynomials::Bernstein(1, 3, uh[k]);
 				double b23 = Polynomials::Bernstein(2, 3, uh[k]);
 				alphak[k] = a / b13;
diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..05d2b9e 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -124,7 +124,7 @@ double LNLib::MathUtils::Binomial(int number, int i)
 double LNLib::MathUtils::ComputerCubicEquationsWithOneVariable(double cubic, double quadratic, double linear, double constant)
 {
     double result;
-    double initial = 0.001;
+    double initial = 0.5;
     result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
     while(MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon))
     {
-- 
2.43.0


From 77d3f581839a750c8f10186166dc38d87ec5a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:56 +0000
Subject: [PATCH 56/65] fix: GlobalApproximationByErrorBound accepts degree one

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1a895cc..2dc472e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2898,8 +2898,11 @@ void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::v
 	tc.KnotVector = knotVector;
 	tc.ControlPoints = controlPoints;
 
-	LN_NurbsCurve newtc;
-	ElevateDegree(tc, degree - 1, newtc);
+	LN_NurbsCurve newtc = tc;
+	if (degree > 1)
+	{
+		ElevateDegree(tc, degree - 1, newtc);
+	}
 	RemoveKnotsByGivenBound(newtc, uk, errors, maxError, result);
 }
 
-- 
2.43.0


From 639ed4f9af9bbe2bb66e69f692d7d54f80042327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:41 +0000
Subject: [PATCH 57/65] fix: GetBoundingBox visits every pair of knots and no
 longer reads the v knots out of range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b9eb437..af116f4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -357,7 +357,7 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From 2d31653a3d77471fa58cf075022770518137c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:18 +0000
Subject: [PATCH 58/65] fix: Overlaps compares distances, not their squares,
 within the tolerance

---
 src/LNLib/Algorithm/Octree/Octree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..178397d 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -57,7 +57,7 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double zDiff = std::max(az - octant->Extent, 0.0);
 
     LNLib::XYZ diff(xDiff, yDiff, zDiff);
-    return  MathUtils::IsLessThan(diff.SqrLength(),(radius * radius));
+    return MathUtils::IsLessThanOrEqual(diff.Length(), radius);
 }
 
 bool LNLib::Contains(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
-- 
2.43.0


From 9fd47501fbec220b371da1574e71a0f486a471da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:57 +0000
Subject: [PATCH 59/65] fix: ReduceDegree's error bound for odd degrees is the
 maximum of B_r - B_r+1

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2dc472e..62a2496 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1154,7 +1154,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 		updatedControlPoints[r] = 0.5 * (PLr + PRr);
 		error = PLr.Distance(PRr);
 		double maxU = (degree - std::sqrt(degree)) / (2 * degree);
-		error = error * 0.5 * (1 - alpha[r]) * (MathUtils::Binomial(degree, r) * pow(maxU, r) * pow(1 - maxU, r + 1) * (1 - 2 * maxU));
+		error = error * 0.5 * (1 - alpha[r]) * (MathUtils::Binomial(degree, r) * pow(maxU, r) * pow(1 - maxU, r) * (1 - 2 * maxU));
 	}
 	if (error > tol) return false;
 
-- 
2.43.0


From e7556ca92ceec58674293764a0254d08347f1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 60/65] fix: GetParamOnCurve and GetParamOnSurface stay in the
 domain and never return a point farther than their starting guess

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     |  6 ++++++
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 62a2496..2df282b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1305,6 +1305,12 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		paramT = newT;
 	}
 
+	// The last step may have left the domain, and the iteration may have run away from the nearest point.
+	paramT = std::max(minParam, std::min(maxParam, paramT));
+	if (GetPointOnCurve(curve, paramT).Distance(givenPoint) > GetPointOnCurve(curve, bestT).Distance(givenPoint))
+	{
+		return bestT;
+	}
 	return paramT;
 }
 
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index af116f4..2f31855 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1305,6 +1305,13 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		XYZ seg = P1 - P0;
 		double segLenSq = seg.DotProduct(seg);
 		double t = 0.5;
+		if (UV0.GetU() != UV1.GetU())
+		{
+			// From the end of one row to the start of the next: not a piece of the surface.
+			seg = XYZ(0, 0, 0);
+			segLenSq = 0.0;
+			t = 0.0;
+		}
 
 		if (MathUtils::IsGreaterThan(segLenSq, 0.0))
 		{
@@ -1393,6 +1400,12 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 		param = UV(newU, newV);
 	}
 
+	// The last step may have left the domain, and the iteration may have run away from the nearest point.
+	param = UV(std::max(minU, std::min(maxU, param.GetU())), std::max(minV, std::min(maxV, param.GetV())));
+	if (GetPointOnSurface(surface, param).Distance(givenPoint) > GetPointOnSurface(surface, bestParam).Distance(givenPoint))
+	{
+		return bestParam;
+	}
 	return param;
 }
 
-- 
2.43.0


From b7788da7650a56d92004c8aa7e2b4d965b7d1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:22 +0000
Subject: [PATCH 61/65] fix: GetParamOnVolume stays in the domain and never
 returns a point farther than its starting guess

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 4980f64..2016500 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1426,6 +1426,12 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 		param = UVW(newU, newV, newW);
 	}
 
+	// The last step may have left the domain, and the iteration may have run away from the nearest point.
+	param = UVW(std::max(minU, std::min(maxU, param.GetU())), std::max(minV, std::min(maxV, param.GetV())), std::max(minW, std::min(maxW, param.GetW())));
+	if (GetPointOnVolume(volume, param).Distance(givenPoint) > GetPointOnVolume(volume, bestParam).Distance(givenPoint))
+	{
+		return bestParam;
+	}
 	return param;
 }
 
-- 
2.43.0


From 2784fa00d58aeabec9effd584e35c6c837303aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:33 +0000
Subject: [PATCH 62/65] fix: generateVoronoi no longer keeps the triangles of
 an earlier run

---
 src/LNLib/Algorithm/Voronoi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..7b67d4c 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -116,6 +116,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 {
 	cleanup();
 	cleanupEdges();
+	triangles.clear();
 	int i;
 
 	minDistanceBetweenSites = minDist;
-- 
2.43.0


From 19b9263ccb9fd2717a642441b26fe7463eb59582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:50 +0000
Subject: [PATCH 63/65] fix: merging knot vectors treats knots that agree up to
 rounding as one knot

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 31 +++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 5949a48..cd269da 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -18,6 +18,23 @@
 
 namespace LNLib
 {
+	std::map<double, int>::iterator FindKnot(std::map<double, int>& multiplicities, double knot)
+	{
+		auto got = multiplicities.find(knot);
+		if (got != multiplicities.end())
+		{
+			return got;
+		}
+		for (auto it = multiplicities.begin(); it != multiplicities.end(); ++it)
+		{
+			if (MathUtils::IsAlmostEqualTo(it->first, knot))
+			{
+				return it;
+			}
+		}
+		return multiplicities.end();
+	}
+
 	void InsertMidKnotCore(std::vector<double>& unqiueKnotVector, std::vector<double>& insert, int limitNumber)
 	{
 		if (insert.size() == limitNumber)
@@ -147,7 +164,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key0 = it->first;
 		int count0 = it->second;
 
-		auto got = map1.find(key0);
+		auto got = FindKnot(map1, key0);
 		if (got == map1.end())
 		{
 			for (int i = 0; i < count0; i++)
@@ -163,7 +180,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 				int times = count0 - count1;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements1.emplace_back(key0);
+					insertElements1.emplace_back(got->first);
 				}
 			}
 			else
@@ -182,7 +199,7 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 		double key1 = it->first;
 		int count1 = it->second;
 
-		auto got = map0.find(key1);
+		auto got = FindKnot(map0, key1);
 		if (got == map0.end())
 		{
 			for (int i = 0; i < count1; i++)
@@ -207,7 +224,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 		{
 			double key = it->first;
 			int count = it->second;
-			auto got = finalMap.find(key);
+			auto got = FindKnot(finalMap, key);
 			if (got == finalMap.end())
 			{
 				finalMap.insert({ key, count });
@@ -217,7 +234,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int currentCount = got->second;
 				if (currentCount < count)
 				{
-					finalMap[key] = count;
+					got->second = count;
 				}
 			}
 		}
@@ -235,7 +252,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 			double key = it->first;
 			int count = it->second;
 
-			auto got = map.find(key);
+			auto got = FindKnot(map, key);
 			if (got == map.end())
 			{
 				for (int j = 0; j < count; j++)
@@ -249,7 +266,7 @@ std::vector<std::vector<double>> LNLib::KnotVectorUtils::GetInsertedKnotElements
 				int times = count - currentCount;
 				for (int j = 0; j < times; j++)
 				{
-					insertElements.emplace_back(key);
+					insertElements.emplace_back(got->first);
 				}
 			}
 		}
-- 
2.43.0


From 99e5d774d14d87ef61b06a1baf23c8a9ff058e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:59 +0000
Subject: [PATCH 64/65] fix: finding the parameter of a given length stops when
 its interval cannot be halved

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2df282b..47f351f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -67,6 +67,11 @@ namespace LNLib
 	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type)
 	{
 		double middle = (start + end) / 2.0;
+		if (middle <= start || middle >= end)
+		{
+			// The interval cannot be halved any more: the approximated length jumps over the given one here.
+			return middle;
+		}
 
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
-- 
2.43.0


From 47d5c88e3c5e28ba97f6b8007696c19a302637ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:02 +0000
Subject: [PATCH 65/65] fix: inserting, removing, splitting and corner cutting
 next to a knot use the knot itself

---
 src/LNLib/Algorithm/Polynomials.cpp         | 12 ++++++++++++
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     |  4 ++++
 src/LNLib/Geometry/Surface/NurbsSurface.cpp |  1 +
 src/LNLib/Geometry/Volume/NurbsVolume.cpp   |  6 ++++++
 src/LNLib/include/Polynomials.h             |  6 ++++++
 5 files changed, 29 insertions(+)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index b9fc014..2409b15 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -124,6 +124,18 @@ int LNLib::Polynomials::GetKnotMultiplicity(const std::vector<double>& knotVecto
 	return multi;
 }
 
+double LNLib::Polynomials::SnapToKnot(const std::vector<double>& knotVector, double paramT)
+{
+	for (double knot : knotVector)
+	{
+		if (MathUtils::IsAlmostEqualTo(paramT, knot))
+		{
+			return knot;
+		}
+	}
+	return paramT;
+}
+
 int LNLib::Polynomials::GetKnotSpanIndex(int degree, const std::vector<double>& knotVector, double paramT)
 {
 	VALIDATE_ARGUMENT(degree >= 0, "degree", "Degree must be greater than or equal zero.");
diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 47f351f..e40edce 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -455,6 +455,7 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 
 	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 
+	insertKnot = Polynomials::SnapToKnot(knotVector, insertKnot);
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
@@ -549,6 +550,7 @@ LNLib::XYZ LNLib::NurbsCurve::GetPointOnCurveByCornerCut(const LN_NurbsCurve& cu
 		return controlPoints[n].ToXYZ(true);
 	}
 
+	paramT = Polynomials::SnapToKnot(knotVector, paramT);
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, paramT);
 	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, paramT);
 
@@ -754,6 +756,7 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	int n = controlPoints.size() - 1;
 
 	int order = degree + 1;
+	removeKnot = Polynomials::SnapToKnot(knotVector, removeKnot);
 	int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
 	int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
 
@@ -1542,6 +1545,7 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 		return false;
 	}
 
+	parameter = Polynomials::SnapToKnot(knotVector, parameter);
 	int multi = Polynomials::GetKnotMultiplicity(knotVector, parameter);
 	std::vector<double> insert(degree + 1 - multi, parameter);
 	left = curve;
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 2f31855..858e36d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -573,6 +573,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 
 	int degree = isUDirection ? surface.DegreeU : surface.DegreeV;
 	std::vector<double> knotVector = isUDirection ? surface.KnotVectorU : surface.KnotVectorV;
+	insertKnot = Polynomials::SnapToKnot(knotVector, insertKnot);
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 2016500..6edf71b 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -518,6 +518,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 			return true;
 		}
 
+		parameter = LNLib::Polynomials::SnapToKnot(kvU, parameter);
 		k = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, parameter);
 		s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 		rr = degreeU - s;
@@ -564,6 +565,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 			return true;
 		}
 
+		parameter = LNLib::Polynomials::SnapToKnot(kvV, parameter);
 		k = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, parameter);
 		s = LNLib::Polynomials::GetKnotMultiplicity(kvV, parameter);
 		rr = degreeV - s;
@@ -620,6 +622,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 			return true;
 		}
 
+		parameter = LNLib::Polynomials::SnapToKnot(kvW, parameter);
 		k = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, parameter);
 		s = LNLib::Polynomials::GetKnotMultiplicity(kvW, parameter);
 		rr = degreeW - s;
@@ -711,6 +714,7 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 		}
 		else
 		{
+			parameter = LNLib::Polynomials::SnapToKnot(kvU, parameter);
 			k = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, parameter);
 			s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			rr = degreeU - s;
@@ -753,6 +757,7 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 		}
 		else
 		{
+			parameter = LNLib::Polynomials::SnapToKnot(kvV, parameter);
 			k = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, parameter);
 			s = LNLib::Polynomials::GetKnotMultiplicity(kvV, parameter);
 			rr = degreeV - s;
@@ -804,6 +809,7 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 		}
 		else
 		{
+			parameter = LNLib::Polynomials::SnapToKnot(kvW, parameter);
 			k = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, parameter);
 			s = LNLib::Polynomials::GetKnotMultiplicity(kvW, parameter);
 			rr = degreeW - s;
diff --git a/src/LNLib/include/Polynomials.h b/src/LNLib/include/Polynomials.h
index cb2a912..478f001 100644
--- a/src/LNLib/include/Polynomials.h
+++ b/src/LNLib/include/Polynomials.h
@@ -64,6 +64,12 @@ namespace LNLib
 		/// </summary>
 		static int GetKnotMultiplicity(const std::vector<double>& knotVector, double paramT);
 
+		/// <summary>
+		/// The knot that equals the parameter up to rounding, or the parameter itself if there is none.
+		/// Knot multiplicity is counted with a tolerance, the knot span is not: both agree for the knot itself.
+		/// </summary>
+		static double SnapToKnot(const std::vector<double>& knotVector, double paramT);
+
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page68
 		/// Algorithm A2.1
-- 
2.43.0

