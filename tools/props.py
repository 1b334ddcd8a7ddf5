"""Property texts; gen.py writes properties.jsonl and MANIFEST.json from here (for the properties registered in lnv/contracts/registry.py)."""
NC = 'src/LNLib/Geometry/Curve/NurbsCurve.cpp'
NS = 'src/LNLib/Geometry/Surface/NurbsSurface.cpp'
NV = 'src/LNLib/Geometry/Volume/NurbsVolume.cpp'
POLY = 'src/LNLib/Algorithm/Polynomials.cpp'
INC = 'src/LNLib/include/'
MU = 'src/LNLib/Mathematics/Utils/MathUtils.cpp'
P = []


def p(pid, title, statement, text, tests, files, mech, over=('inputs',)):
    P.append(dict(id=pid, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=tests,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}))


p('C01', 'Knot span and multiplicity lookup',
  'For every non-decreasing knot vector and every parameter of its domain, the span lookup returns the index of the non-empty half-open knot interval that contains the parameter (the last non-empty interval at the right end of the domain). The multiplicity query returns exactly the number of knots equal to the given value, zero for values that are not knots.',
  'every degree, every multiplicity pattern of the knots, every real parameter value in the domain including the knots themselves',
  'The tests evaluate one or two parameters on one fixed knot vector; repeated interior knots and both domain ends are hardly touched.',
  [POLY], [('GetKnotSpanIndex', POLY), ('GetKnotMultiplicity', POLY)])

p('C02', 'B-spline basis functions equal the Cox-de Boor functions',
  'For every knot vector, degree and parameter, the computed non-vanishing basis functions, the single basis function and the table of all lower-degree basis functions equal the Cox-de Boor functions. They are non-negative and the non-vanishing ones sum to one.',
  'every clamped knot vector (any multiplicities), every degree, every real parameter of the domain',
  'Tests compare a single worked example of the NURBS book at one parameter.',
  [POLY], [('BasisFunctions', POLY), ('OneBasisFunction', POLY), ('AllBasisFunctions', POLY)])

p('C03', 'Basis function derivatives are exact',
  'For every knot vector, degree, order and parameter, the computed derivatives of the basis functions (all orders up to the degree, the first-order variant and the single-function variant) equal the derivatives of the Cox-de Boor functions. For every order of at least one they sum to zero.',
  'every clamped knot vector, degree, derivative order and real parameter',
  'Tests check one knot vector at one parameter and only few entries.',
  [POLY], [('BasisFunctionsDerivatives', POLY), ('BasisFunctionsFirstOrderDerivative', POLY), ('OneBasisFunctionDerivative', POLY)])

p('C04', 'Curve point evaluation',
  'For every valid B-spline or NURBS curve and every parameter, the evaluated point is the (weighted) basis-function combination of the control points, and corner cutting gives the same point. A clamped curve starts at its first and ends at its last control point.',
  'every degree, knot multiplicity pattern, all real control points, positive weights and parameters',
  'Tests evaluate a couple of fixed curves at fixed parameters.',
  [NC, INC + 'BsplineCurve.h'], [('GetPointOnCurve', INC + 'BsplineCurve.h'), ('GetPointOnCurve', NC), ('GetPointOnCurveByCornerCut', NC)])

p('C05', 'Curve derivatives',
  'For every curve, parameter and order, the derivative vectors returned for B-spline curves (by either algorithm, and via the derivative control points) and for rational curves equal the true derivatives of the evaluated curve. Orders above the degree are zero for non-rational curves. Curvature, principal normal, binormal and torsion are those of the evaluated curve, for any parametrisation speed. CanComputeDerivative reports no derivative at a kink and one at the ends.',
  'every degree, knot multiplicity pattern, derivative order, all real control points, positive weights and parameters',
  'Tests compare a few derivative vectors of one or two curves.',
  [NC, INC + 'BsplineCurve.h'], [('ComputeDerivatives', INC + 'BsplineCurve.h'), ('ComputeDerivativesByAllBasisFunctions', INC + 'BsplineCurve.h'), ('ComputeControlPointsOfDerivatives', INC + 'BsplineCurve.h'), ('ComputeRationalCurveDerivatives', NC), ('Curvature', NC), ('Normal', NC), ('Torsion', NC), ('CanComputeDerivative', NC)])

p('C09', 'Curve knot insertion and refinement preserve the curve',
  'Inserting a knot any admissible number of times, or refining with any sorted list of knots, yields a curve of the same degree whose knot vector is the old one plus exactly the inserted knots (with the reported count), with a matching number of control points. The new curve describes exactly the same point set with the same parametrisation.',
  'every degree, multiplicity pattern, insertion position and count, all real control points and positive weights',
  'Tests insert one knot into one cubic and compare a few control points.',
  [NC], [('InsertKnot', NC), ('RefineKnotVector', NC)])

p('C10', 'Curve degree elevation preserves the curve',
  'Raising the degree of any curve by any positive amount yields a curve of exactly the requested degree in which every distinct knot has its multiplicity raised by that amount, with matching control point count. It describes exactly the same curve with the same parametrisation.',
  'every degree, amount, knot multiplicity pattern, all real control points and positive weights',
  'Tests elevate one cubic without repeated interior knots.',
  [NC], [('ElevateDegree', NC)])

p('C11', 'Bezier decomposition of curves',
  'Decomposing any curve returns exactly one Bezier segment per non-empty knot span, in order, each of the same degree with the knot vector 0..0,1..1. Every segment reproduces the curve over its span up to the linear change of parameter.',
  'every degree and knot multiplicity pattern (including full-multiplicity interior knots), all real control points and positive weights',
  'Tests decompose one cubic with single interior knots.',
  [NC], [('DecomposeToBeziers', NC)])

p('C12', 'Knot removal and degree reduction',
  'Reducing the degree of a Bezier curve that is the elevation of a lower-degree curve gives back that curve; other curves are refused, or keep their end points and move by no more than the modelling tolerance (homogeneous distance); and a curve that cannot be reduced is reported as such. Removing one occurrence of an interior knot, when reported as successful, keeps the degree, drops exactly one copy of that knot and one control point, leaves control points outside the influence of the knot untouched, and keeps the curve whenever the knot is exactly removable.',
  'every degree, knot multiplicity pattern, removal position, all real control points and positive weights',
  'Tests remove one knot from one curve and reduce one elevated curve.',
  [NC], [('RemoveKnot', NC), ('ReduceDegree', NC)])

p('C06', 'Surface point evaluation',
  'For every valid B-spline or NURBS surface and every parameter pair, the evaluated point is the (weighted) tensor-product basis combination of the control net. At the four corners of a clamped surface it is the corner control point.',
  'every pair of degrees, knot multiplicity patterns, rectangular net sizes, all real control points, positive weights and parameters including both ends and interior knots',
  'Tests evaluate one or two fixed surfaces at one parameter pair.',
  [NS, INC + 'BsplineSurface.h'], [('GetPointOnSurface', NS), ('GetPointOnSurface', INC + 'BsplineSurface.h')])

p('C07', 'Surface derivatives, normal and curvature',
  'For every surface, parameter pair and order, the partial derivatives returned for B-spline surfaces (by either algorithm) and for rational surfaces equal the true partial derivatives of the evaluated surface; non-rational ones vanish above the degree. The normal is the unit vector along the cross product of the first partial derivatives, and the Gaussian, mean, maximum, minimum and normal curvatures follow from the two fundamental forms.',
  'every pair of degrees, knot multiplicity pattern, derivative order, all real control points, positive weights and parameters',
  'Tests compare a few derivative vectors of one surface and curvatures of spheres or cylinders.',
  [NS, INC + 'BsplineSurface.h'], [('ComputeDerivatives', INC + 'BsplineSurface.h'), ('ComputeRationalSurfaceDerivatives', NS), ('Normal', NS), ('Curvature', NS)])

p('C15', 'Structural edits of surfaces preserve the surface',
  'Knot insertion, knot refinement, degree elevation, degree reduction of a reducible surface and Bezier decomposition, in either direction, return a surface (or one patch per non-empty cell, in order) with the requested degrees and knot vectors, a control net of matching size, and exactly the same points; the other direction is untouched.',
  'every pair of degrees, multiplicity pattern, direction, insertion position and count, non-square nets, all real control points and positive weights',
  'Tests edit one square bicubic surface in one direction.',
  [NS], [('InsertKnot', NS), ('RefineKnotVector', NS), ('ElevateDegree', NS), ('ReduceDegree', NS), ('DecomposeToBeziers', NS)])

p('C16', 'Surface reversal, swap, reparametrisation and iso curves',
  'Reversing a surface in u, v or both gives the surface with exactly those parameters mirrored; swapping exchanges u and v; reparametrising to new ranges gives the affinely rescaled surface for every combination of changed and unchanged ranges; an iso curve lies on the surface at the requested parameter, with the degree and knots of the running direction.',
  'every pair of degrees, multiplicity pattern, direction, target range, parameter, all real control nets (non-square included) and positive weights',
  'Tests use one symmetric surface or compare only a corner point.',
  [NS], [('Reverse', NS), ('Swap', NS), ('Reparametrize', NS), ('GetIsoCurve', NS)])

p('C19', 'Vector algebra and homogeneous points',
  'Sum, difference, negation, scaling, division, dot and cross product, length, normalisation, distance and angle of 2D / 3D vectors and of homogeneous points satisfy their algebraic definitions for all real components, and compound assignments agree with the binary operators. Attaching a weight and projecting back returns the point, changing the weight keeps the Cartesian point, nets of points are projected, embedded and multiplied by coefficient matrices entry by entry, and the zero / unit / almost-equal predicates are exactly their tolerance definitions.',
  'all real vectors, scalars, positive weights and tolerances',
  'Tests check a few integer vectors.',
  ['src/LNLib/Mathematics/Math/XYZ.cpp', 'src/LNLib/Mathematics/Math/UV.cpp', 'src/LNLib/Mathematics/Math/XYZW.cpp'], [('XYZ', 'src/LNLib/Mathematics/Math/XYZ.cpp'), ('UV', 'src/LNLib/Mathematics/Math/UV.cpp'), ('XYZW', 'src/LNLib/Mathematics/Math/XYZW.cpp')])

p('C20', 'Affine transforms',
  'Applying a 4x4 transform to points, vectors and weighted points is the matrix action (weights kept), and products compose. Translation, scaling, reflection in a plane and rotation about an axis through any point are exactly those maps (rotations keep lengths and fix the axis, reflections are involutions), inverse and transpose are correct, and identity / translation / reflection predicates hold exactly for such matrices up to the tolerance.',
  'all real affine matrices, points, axes, angles and distances',
  'Tests transform one point by one matrix of each kind.',
  ['src/LNLib/Mathematics/Math/Matrix4d.cpp'], [('OfPoint', 'src/LNLib/Mathematics/Math/Matrix4d.cpp'), ('CreateRotationAtPoint', 'src/LNLib/Mathematics/Math/Matrix4d.cpp'), ('IsIdentity', 'src/LNLib/Mathematics/Math/Matrix4d.cpp')])

p('C28', 'Tolerance comparisons and scalar / matrix helpers',
  'The approximate comparisons are exactly the documented comparisons with a mixed absolute/relative tolerance, so that for every pair of finite numbers exactly one of less, almost-equal and greater holds; NaN and infinity are recognised. Binomial coefficients, factorials, angle conversion, matrix product, transpose, identity, determinant and inverse are mathematically correct for all admissible arguments; the cubic solver returns a root.',
  'all real pairs and tolerances; all integer arguments of the admissible ranges; all matrices of the listed sizes',
  'Tests check a handful of numbers and one matrix.',
  [MU, INC + 'MathUtils.h', INC + 'Constants.h'], [('IsAlmostEqualTo and friends', MU), ('Binomial', MU), ('MatrixMultiply', MU), ('MakeInverse', MU)])

IT = 'src/LNLib/Algorithm/Interpolation.cpp'
KU = 'src/LNLib/Algorithm/KnotVectorUtils.cpp'
p('C13', 'Splitting, extracting and joining curves',
  'Splitting a curve inside its domain gives two well-formed clamped curves of the same degree that reproduce the curve exactly to the left and to the right of the parameter; at the domain ends splitting is refused. Extracting a parameter range gives exactly that part of the curve, and merging two clamped curves that share an end point (of any two degrees) gives one curve over [0,1] made of both; curves that do not meet are refused.',
  'every degree, multiplicity pattern and split position (inside spans, at simple and repeated knots), all real control points and positive weights',
  'Tests split one curve at one parameter and compare an end point.',
  [NC], [('SplitAt', NC), ('Extract', NC), ('Merge', NC)])

p('C14', 'Curve reversal, reparametrisation and transformation',
  'Reversing mirrors the parameter and keeps the point set. Rescaling the parameter range keeps every control point and maps the knots affinely; a linear rational reparametrisation moves every point to the image parameter without changing it. Transforming a curve transforms every Cartesian control point and keeps weights, degree and knots.',
  'every degree, multiplicity pattern, target range, Moebius map (increasing and without pole on the domain), affine matrix, all real control points and positive weights',
  'Tests reparametrise one curve and compare a few control points.',
  [NC, KU], [('Reverse', NC), ('Reparametrize', NC), ('CreateTransformed', NC), ('Rescale', KU)])

p('C18', 'Bezier forms and polynomial bases',
  'Bernstein polynomials equal their definition for every index and degree, Horner evaluation equals the power sum in one and two variables, and the matrices converting between Bezier and power basis are exact and inverse to each other. Bezier curves and surfaces (rational ones in homogeneous coordinates) evaluate to the Bernstein combination by every algorithm offered, and the rational quadratic arc to the projected one.',
  'every degree, index, all real coefficients, control points, positive weights and parameters of [0,1] including both ends',
  'Tests evaluate one curve of degree two at one parameter.',
  [POLY, INC + 'BezierCurve.h', INC + 'BezierSurface.h'], [('Bernstein', POLY), ('Horner', POLY), ('BezierToPowerMatrix', POLY), ('GetPointOnCurveByDeCasteljau', INC + 'BezierCurve.h'), ('GetPointOnSurfaceByDeCasteljau', INC + 'BezierSurface.h'), ('GetPointOnQuadraticArc', 'src/LNLib/Geometry/Curve/BezierCurve.cpp')])

p('C22', 'Knot vector utilities',
  'The multiplicity maps list every distinct knot with its count, continuity at a knot is the degree minus its multiplicity, and rescaling is the affine map of the range. The knot merging utilities return exactly the missing knots, so that adding them gives every input the same (minimal) multiset of knots; a knot vector is uniform exactly if its gaps and multiplicities are equal, and automatic knot insertion bisects longest spans.',
  'all knot vectors with any multiplicities, any number of knot vectors to merge, any range',
  'Tests merge one pair of knot vectors.',
  [KU], [('GetInsertedKnotElement', KU), ('GetKnotMultiplicityMap', KU), ('Rescale', KU), ('IsUniform', KU)])

IX = 'src/LNLib/Algorithm/Intersection.cpp'
PJ = 'src/LNLib/Algorithm/Projection.cpp'
p('C21', 'Intersection and projection of lines, rays and planes',
  'Two lines are classified as meeting, skew, parallel or coincident exactly as they are, with the common point and the parameters of the closest points. A line and a plane meet in a point of both, or are reported parallel or contained. Projecting a point on a line gives the foot of the perpendicular, on a segment only when the foot lies on it, and the stereographic image is collinear with the pole.',
  'all lines, planes, points and directions of any length and orientation, in general position within each class',
  'Tests intersect one or two axis-parallel pairs.',
  [IX, PJ], [('ComputeRays', IX), ('ComputeLineAndPlane', IX), ('PointToRay', PJ), ('PointToLine', PJ), ('Stereographic', PJ)])

p('C23', 'Lines, arcs, conics and Hermite curves are the requested curves',
  'The line constructor gives the linearly parametrised segment. Circular and elliptic arcs of any radii, axes, start angle and sweep up to a full turn lie exactly on the ellipse, start and end at the requested angles and run forward through exactly that sweep. A conic given by end points, end tangents and a point on it starts, ends, is tangent and lies on exactly that conic; the arc splitting and weight helpers agree, and the cubic Hermite curve passes through every point with its tangent. The middle control point of a rational quadratic through two points with tangents is where the tangents meet, with the weight of the mean bisector; otherwise two arcs that respect both tangents and join smoothly are given.',
  'all centres, axes, radii, angles, sweep classes, end points, tangents, shoulder weights and point counts',
  'Tests create a quarter or full circle in the XY plane and one conic.',
  [NC], [('CreateLine', NC), ('CreateArc', NC), ('CreateOneConicArc', NC), ('SplitArc', NC), ('CreateOpenConic', NC), ('CreateCubicHermite', NC), ('ComputerMiddleControlPointsOnQuadraticCurve', 'src/LNLib/Geometry/Curve/BezierCurve.cpp')])

NV = 'src/LNLib/Geometry/Volume/NurbsVolume.cpp'
p('C08', 'Volume evaluation, derivatives and iso curves',
  'For every valid NURBS volume and every parameter triple, the evaluated point is the weighted tensor-product basis combination of the control lattice, and the partial derivatives are the true partial derivatives (zero above the degree). An iso curve in the direction marked -1 has the degree and knots of that direction and agrees with the volume along it.',
  'every triple of degrees, knot multiplicity patterns, lattice sizes, all real control points, positive weights and parameters including both ends and interior knots',
  'Tests evaluate one volume at one point.',
  [NV], [('GetPointOnVolume', NV), ('ComputeVolumeRationalDerivatives', NV), ('GetIsoCurve', NV)])

p('C17', 'Structural edits of volumes preserve the volume',
  'Knot insertion, knot refinement and degree elevation of a volume in any of its three directions return a well-formed volume with the requested degrees and knots that is pointwise the same. Reversing mirrors exactly the chosen direction; swapping two directions (in either order) exchanges exactly these; splitting gives two volumes that reproduce the two sides; extracting a boundary or inner surface gives the surface the volume has there.',
  'every triple of degrees, multiplicity patterns, direction, position and count, non-cubic lattices, all real control points and positive weights',
  'Tests edit one volume in one direction and compare few points.',
  [NV], [('InsertKnot', NV), ('RefineKnotVector', NV), ('ElevateDegree', NV), ('Reverse', NV), ('Swap', NV), ('SplitAt', NV), ('Extract', NV)])

p('C24', 'Constructed surfaces are the requested surfaces',
  'The bilinear patch is the bilinear combination of its corners. Cylindrical and revolved surfaces of any axis length and sweep up to a full turn are exactly the rotated generators. The ruled surface joins points of equal parameter of two curves of any degrees and knots by straight segments, the translational sweep is the sum of profile and trajectory, non-uniform scaling scales the surface by the given factors, the Coons patch interpolates its four boundary curves, a loft passes through all of its sections, a Gordon surface contains its curve network, and a sweep starts and ends with a copy of the profile placed perpendicular to the trajectory.',
  'all corner points, axes, angles, radii, sweep classes, profile degrees and knot patterns, weights and compatible boundary curves',
  'Tests construct one axis-parallel surface of each kind and compare a point or two.',
  [NS], [('CreateBilinearSurface', NS), ('CreateCylindricalSurface', NS), ('CreateRuledSurface', NS), ('CreateRevolvedSurface', NS), ('CreateGeneralizedTranslationalSweepSurface', NS), ('NonUniformScaling', NS), ('CreateCoonsSurface', NS), ('CreateLoftSurface', NS), ('CreateGordonSurface', NS), ('CreateSweepSurface', NS)])

p('C25', 'Interpolation passes through its data',
  'Every interpolating curve or surface (global, with prescribed tangents, cubic local, bicubic local, grid) is well formed, runs through every given point at that point\'s parameter, has the prescribed derivatives, and the parametrisations and knot vectors it uses are increasing and follow their definitions (chord length, centripetal, averaging, Bessel and five-point tangents). The linear system solver returns a solution of the system it was given.',
  'all data points in general position, all degrees and point counts of the listed shapes, all prescribed tangents; the linear solver is an assumed contract of its callers and checked separately',
  'Tests interpolate one fixed point set per routine and look at one value.',
  [IT, NC, NS], [('GetChordParameterization', IT), ('AverageKnotVector', IT), ('ComputeTangent', IT), ('SolveLinearSystem', MU), ('GlobalInterpolation', NC), ('CubicLocalInterpolation', NC), ('GlobalInterpolation', NS), ('BicubicLocalInterpolation', NS)])

p('C26', 'Invalid arguments are rejected, valid ones accepted',
  'The structure checks accept exactly well-formed curves, surfaces and volumes (positive degree, non-decreasing knots, knots = control points + degree + 1, Bezier: degree + 1 points). Every public routine with a stated precondition (parameter inside the domain, positive radius, height, error bound or repeat count, non-zero direction or axis, ordered range, index in range, matching sizes, degree within the maximum) raises std::invalid_argument or std::out_of_range when that precondition is violated and does not when it holds.',
  'all real values of the offending argument beyond the tolerance, all values of the other arguments; listed structural shapes',
  'Tests never pass an invalid argument.',
  ['src/LNLib/Algorithm/ValidationUtils.cpp', NC, NS], [('IsValidKnotVector', 'src/LNLib/Algorithm/ValidationUtils.cpp'), ('Check', NC), ('Check', NS), ('CreateArc', NC), ('Extract', NC), ('GetKnotSpanIndex', 'src/LNLib/Algorithm/Polynomials.cpp')])

p('C27', 'Tessellations lie on the geometry and cover all of it',
  'EquallyTessellate of a curve (surface) returns as many parameters as points, the same number equally spaced on every knot span (grid cell), including all knots and the ends of the domain, each point being the curve (surface) point at its parameter. Tessellate returns points of the curve in order from its start to its end, and the polyline stays within the modelling tolerance of the curve, also where the middle of a span lies on the chord. Triangulate returns a consistently oriented triangulation of a grid over the whole parameter domain: vertex (i,j) is the surface point at the grid parameter, two triangles per cell, every inner edge shared by exactly two triangles in opposite directions.',
  'all control points, positive weights and knot values for listed degrees, multiplicity patterns and resolutions',
  'Tests only count points on one example.',
  [NC, NS], [('EquallyTessellate', NC), ('Tessellate', NC), ('EquallyTessellate', NS), ('Triangulate', NS)])

p('C30', 'Clamping, extending and recognising curves',
  'ToClampCurve returns the same curve over the same domain with end knots of multiplicity degree + 1; ToUnclampCurve the same curve with periodically spaced outer knots; IsClamp, IsClosed, IsPeriodic, IsLinear and IsArc answer according to the geometry (end knot multiplicities; the ends of the domain coincide; uniform unclamped knots with wrapped control points; all control points on one line; all points at one distance of the reported centre, with its radius). Surface and volume IsClosed compare the opposite boundary layers of the asked direction. Extend keeps the original curve and continues it along its tangent, osculating circle or end polynomial by the requested length.',
  'all control points, positive weights and knot values for listed degrees and multiplicity patterns',
  'Tests check one circle and one clamped curve.',
  [NC, NS, NV], [('ToClampCurve', NC), ('ToUnclampCurve', NC), ('IsClosed', NC), ('IsPeriodic', NC), ('IsLinear', NC), ('IsArc', NC), ('Extend', NC), ('IsClosed', NS), ('IsClosed', NV)])

p('C29', 'Shape modification tools meet the requested condition exactly',
  'Control point repositioning moves the curve point at the given parameter by exactly the requested distance in the requested direction while only the chosen control point changes; weight modification pulls it by the requested distance along the line to the control point, neighbouring weight modification moves it by the requested distance along its line to the leg; warping, flattening and bending move exactly the control points of the chosen range as specified (share of the distance across the tangent, projection onto the line, cross ratio towards the circle) and keep degree, knots and weights; constraint based modification makes the derivatives at the given parameters change by exactly the requested vectors. The offset of a convex planar arc starts and ends on its normals at the distance, and with the Piegl-Tiller method every point of it lies at that distance.',
  'all control points, positive weights, knot values, targets and distances for listed degrees and multiplicity patterns',
  'Tests move one point on one curve.',
  [NC], [('ControlPointReposition', NC), ('WeightModification', NC), ('NeighborWeightsModification', NC), ('Warping', NC), ('Flattening', NC), ('Bending', NC), ('ConstraintBasedModification', NC), ('Offset', NC)])

p('C33', 'Approximation is least squares and keeps its error bound',
  'Least squares approximation interpolates the first and last point, returns a well-formed curve with the requested number of control points and satisfies the normal equations of the (weighted) least squares problem, with constrained points and derivatives met exactly. The error bound of an exactly removable knot is zero. Surface approximation interpolates the four corners and, for grids that are sums of two point rows, is the sum of the two curve approximations. Conic and cubic fitting recover the conic or cubic (or segment) the points were taken from, refuse data no such curve fits, and report success only if every point is within the error bound. Approximation by error bound keeps the first and last point and stays within the bound of every point.',
  'all data points in general position, weights and tangents, for the listed degrees, point counts and control point counts; the linear solvers are assumed contracts checked separately',
  'Tests approximate one fixed point set and look at the size of the result.',
  [NC, NS], [('LeastSquaresApproximation', NC), ('WeightedAndContrainedLeastSquaresApproximation', NC), ('ComputerRemoveKnotErrorBound', NC), ('GlobalApproximation', NS), ('FitWithConic', NC), ('FitWithCubic', NC), ('GlobalApproximationByErrorBound', NC)])

OC = 'src/LNLib/Algorithm/Octree/Octree.cpp'
p('C32', 'Octree searches and bounding boxes miss nothing',
  'The octree holds every point exactly once at every level inside the cube of its node; the cube predicates (ball inside cube, ball meets cube, cube inside ball) are exact. A radius search (plain and fast) finds exactly the points within the radius and a k-nearest search exactly min(k, n) points with the true k-th distance, whatever the order of insertion. The oriented bounding box has orthonormal axes and contains all control points tightly; the axis-parallel box lies within the box of the control points and contains the surface at all its knots; two boxes intersect iff they overlap on every axis.',
  'all points, queries, radii, counts and leaf sizes away from ties at the tolerance (cube predicates and result sets for all reals; trees of two points for all reals; larger clouds by concrete runs)',
  'No test uses the octree; one test looks at one bounding box.',
  [OC, 'src/LNLib/Algorithm/Octree/OctreeCollector.cpp', NS], [('OctreeConstruction', OC), ('OctreeRadiusSearch', OC), ('OctreeKnnSearch', OC), ('Overlaps', OC), ('AddPoint', 'src/LNLib/Algorithm/Octree/OctreeCollector.cpp'), ('GetBoundingBox', NS), ('GetOrientedBoundingBox', NS)])

p('C34', 'Point inversion finds the point again',
  'For a point of a curve, surface or volume the returned parameters lie in the domain and the geometry passes through the point there (within the distance tolerance); the lists of all parameters contain one of that point and no parameter twice. For an arbitrary point the returned parameter lies in the domain and no point of the curve or surface is closer by more than the sampling distance. The signed distance to a gently curved patch is the height over it, positive on the side of the normal. GetUVTangent returns the components of the tangential part of a vector with respect to Su and Sv.',
  'all control points, positive weights, knot values, points and parameters (ends, interior knots, edges and corners included) for listed degrees and multiplicity patterns; the inversions are sampled concretely, away from points where the geometry stops moving',
  'Tests invert one point on one curve and one surface.',
  [NC, NS, NV], [('GetParamOnCurve', NC), ('GetAllParamsOnCurve', NC), ('GetParamOnSurface', NS), ('GetAllParamsOnSurface', NS), ('ComputeSignedDistanceFunction', NS), ('GetUVTangent', NS), ('GetParamOnVolume', NV)])

IG = 'src/LNLib/Algorithm/Integrator.cpp'
p('C35', 'Quadrature, lengths and areas',
  'The Simpson rules integrate every cubic over every interval and every bicubic over every rectangle exactly; the Gauss table is the rule exact up to degree 2n-1; the Clenshaw-Curtis rules integrate polynomials to their tolerance, also when the coefficient table is used again. All three kinds of approximate length and area agree with the integral of the speed (area element) within a thousandth, also for a piece of a curve; the parameter found for a length cuts off a piece of that length, and the parameters found for a step cut the curve into pieces of that length.',
  'all polynomials and intervals for the Simpson rules; lengths and areas on concrete curves and patches without cusps, for listed degrees and multiplicity patterns',
  'Tests compare the length of one or two curves with a constant.',
  [IG, NC, NS], [('Simpson', IG), ('ClenshawCurtisQuadrature', IG), ('ChebyshevSeries', IG), ('ApproximateLength', NC), ('GetParamOnCurve', NC), ('GetParamsOnCurve', NC), ('ApproximateArea', NS)])

VO = 'src/LNLib/Algorithm/Voronoi.cpp'
p('C36', 'Delaunay triangulation and Voronoi diagram',
  'For every set of sites in general position the triangles reported are exactly the triples of sites whose circumcircle contains no other site, each once, and with the option on the Delaunay edges are their sides, each once (shorter edges than the given minimum distance left out). The Voronoi edges reported are exactly the parts inside the given box of the bisectors that are nearest to their two sites. On grids (cocircular and collinear sites) the triangles still cover the hull once with empty circumcircles. A generator used again reports the result of its last run only. Each bisector line is the set of points equally far from both sites, a vertex lies on both bisectors it joins, the side test compares with the breakpoint of the two parabolas, and clipping keeps the part of an edge inside the box. The Delaunay mesh of a surface has its vertices on the surface and triangles that cover the sampled domain once.',
  'all pairs and quadruples of sites, boxes and edge ends for the geometric steps; the whole sweep on concrete site sets of 3 to 63 sites away from degeneracies at single precision',
  'One test triangulates one surface and looks at nothing but that it ran.',
  [VO, NS], [('bisect', VO), ('intersect', VO), ('right_of', VO), ('clip_line', VO), ('generateVoronoi', VO), ('reset', VO), ('Triangulate', NS)])

p('C31', 'Swung and corner fillet surfaces contain the curves they are built from',
  'A swung surface contains its profile and follows its trajectory; a corner fillet surface joins the boundaries it was given.',
  'all profiles, trajectories and corners', 'Tests look at the size of the result.', [NS], [('CreateSwungSurface', NS), ('MakeCornerFilletSurface', NS)])

p('C37', 'Results are within rounding error of the exact results',
  'For all inputs of moderate size every evaluation, derivative and transformation returns a result within a stated rounding error of the exact real result.',
  'all floating-point inputs', 'Tests sample a handful of inputs with nice numbers.', [NC, NS], [('GetPointOnCurve', NC), ('GetPointOnSurface', NS)])

NA = [
    {'property': 'C31', 'reason': 'No contract within reach states what the code promises: CreateSwungSurface drops the weights of the profile and places the trajectory by heuristic frames at knots instead of interpolation parameters, MakeCornerFilletSurface returns a surface without knot vectors; a postcondition that holds would only repeat the statements of the body.'},
    {'property': 'C37', 'reason': 'The obligations treat machine arithmetic as real arithmetic. A deductive bound on the rounding error of these loops needs a floating-point verifier (Frama-C WP with Gappa, or Flocq proofs) that accepts this C++; none is installed. The concrete runs compare with a tolerance but prove nothing about rounding.'},
]

