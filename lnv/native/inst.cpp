// Explicit instantiations of LNLib's header-only templates (no code of our own):
// gives the extractor, and the native driver, the bodies for T = XYZ and T = XYZW.
#include <cmath>
#include <algorithm>
#include <stdexcept>
#include <string>
#include "UV.h"
#include "XYZ.h"
#include "XYZW.h"
#include "Polynomials.h"
#include "LNObject.h"
#include "MathUtils.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"

namespace LNLib {
#define INST(T) \
  template void BezierCurve::Check<T>(const LN_BezierCurve<T>&); \
  template T BezierCurve::GetPointOnCurveByBernstein<T>(const LN_BezierCurve<T>&, double); \
  template T BezierCurve::GetPointOnCurveByDeCasteljau<T>(const LN_BezierCurve<T>&, double); \
  template void BezierSurface::Check<T>(const LN_BezierSurface<T>&); \
  template T BezierSurface::GetPointOnSurfaceByDeCasteljau<T>(const LN_BezierSurface<T>&, UV); \
  template void BsplineCurve::Check<T>(const LN_BsplineCurve<T>&); \
  template T BsplineCurve::GetPointOnCurve<T>(const LN_BsplineCurve<T>&, double); \
  template std::vector<T> BsplineCurve::ComputeDerivatives<T>(const LN_BsplineCurve<T>&, int, double); \
  template std::vector<std::vector<T>> BsplineCurve::ComputeControlPointsOfDerivatives<T>(const LN_BsplineCurve<T>&, int, int, int); \
  template std::vector<T> BsplineCurve::ComputeDerivativesByAllBasisFunctions<T>(const LN_BsplineCurve<T>&, int, double); \
  template void BsplineSurface::Check<T>(const LN_BsplineSurface<T>&); \
  template T BsplineSurface::GetPointOnSurface<T>(const LN_BsplineSurface<T>&, UV); \
  template std::vector<std::vector<T>> BsplineSurface::ComputeDerivatives<T>(const LN_BsplineSurface<T>&, int, UV); \
  template void BsplineSurface::ComputeFirstOrderDerivative<T>(const LN_BsplineSurface<T>&, UV, T[2][2]); \
  template std::vector<std::vector<std::vector<std::vector<T>>>> BsplineSurface::ComputeControlPointsOfDerivatives<T>(const LN_BsplineSurface<T>&, int, int, int, int, int, UV); \
  template std::vector<std::vector<T>> BsplineSurface::ComputeDerivativesByAllBasisFunctions<T>(const LN_BsplineSurface<T>&, int, UV); \
  template void MathUtils::Transpose<T>(const std::vector<std::vector<T>>&, std::vector<std::vector<T>>&); \
  template std::vector<T> MathUtils::GetColumn<T>(const std::vector<std::vector<T>>&, int);
INST(XYZ)
INST(XYZW)
template void MathUtils::Transpose<double>(const std::vector<std::vector<double>>&, std::vector<std::vector<double>>&);
template std::vector<double> MathUtils::GetColumn<double>(const std::vector<std::vector<double>>&, int);
}
