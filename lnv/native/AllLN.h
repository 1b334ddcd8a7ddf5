#pragma once
#define private public
#define protected public
#include "LNLibDefinitions.h"
#include "LNEnums.h"
#include "Constants.h"
#include "UV.h"
#include "UVW.h"
#include "XYZ.h"
#include "XYZW.h"
#include "Matrix4d.h"
#include "LNObject.h"
#include "MathUtils.h"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "ControlPointsUtils.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "Projection.h"
#include "ValidationUtils.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "LNLibExceptions.h"
#undef private
#undef protected
