"""C26: argument validation."""
from fractions import Fraction
from .base import *
from .geo import one


@contract('valid.kv', ['ValidationUtils::IsValidKnotVector'], [{'n': n, 'pat': pat} for n in (2, 3, 4, 5) for pat in range(3 ** (n - 1))], summaries='none', trials=2, bound='knot vectors of 2..5 knots, every order pattern')
def validkv(E, c):
    n = c['n']
    v = [E.real('t0')]
    ok = True
    k = c['pat']
    for i in range(1, n):
        d = k % 3
        k //= 3
        g = E.pos('g%d' % i)
        v.append(v[-1] if d == 0 else v[-1] + g if d == 1 else v[-1] - g)
        ok = ok and d != 2
    r = E.ok('ValidationUtils::IsValidKnotVector', v).ret
    E.check('valid iff non-decreasing', bool(r) == ok)


REJ = ('std::invalid_argument', 'std::out_of_range')


@contract('valid.counts', ['ValidationUtils::IsValidBezier', 'ValidationUtils::IsValidBspline', 'ValidationUtils::IsValidNurbs', 'ValidationUtils::IsValidDegreeReduction'],
          [{'p': p, 'd': d} for p in range(0, 8) for d in range(-3, 4)], summaries='none', trials=1)
def validcounts(E, c):
    p, d = c['p'], c['d']
    E.check('Bezier: degree + 1 control points', bool(E.ok('ValidationUtils::IsValidBezier', p, p + 1 + d).ret) == (d == 0))
    for n in (1, 2, p + 1, p + 4):
        E.check('B-spline: knots = control points + degree + 1', bool(E.ok('ValidationUtils::IsValidBspline', p, n + p + 1 + d, n).ret) == (d == 0))
        E.check('NURBS: knots = control points + degree + 1', bool(E.ok('ValidationUtils::IsValidNurbs', p, n + p + 1 + d, n).ret) == (d == 0))
    E.check('only degrees above one can be reduced', bool(E.ok('ValidationUtils::IsValidDegreeReduction', p).ret) == (p > 1))


# ---------------------------------------------------------------- structure checks
def _curves():
    out = []
    for p in (-1, 0, 1, 2, 3):
        for nk in (0, 2, 4, 5, 7):
            for n in (0, 1, 2, 3, 4):
                out.append({'p': p, 'nk': nk, 'n': n, 'ord': 1})
    for p, nk, n in ((1, 4, 2), (2, 7, 4), (2, 6, 3)):
        for w in range(nk - 1):
            out.append({'p': p, 'nk': nk, 'n': n, 'ord': 0, 'w': w})
    return out


def _knots(E, c, name='t'):
    v = []
    x = E.real(name)
    for i in range(c['nk']):
        v.append(x)
        if c['ord'] or c['w'] != i:
            x = x + (E.pos('%sg%d' % (name, i)) if i % 3 else 0)
        else:
            x = x - E.pos('%sg%d' % (name, i))
    return v


@contract('valid.curve', ['NurbsCurve::Check', 'BsplineCurve::Check', 'BezierCurve::Check'], _curves(), summaries='none', trials=1)
def validcurve(E, c):
    kv = _knots(E, c)
    good = c['p'] > 0 and c['nk'] > 0 and c['n'] > 0 and c['ord'] == 1 and c['nk'] == c['n'] + c['p'] + 1
    P3, P4 = E.points('P', c['n']), E.wpoints('Q', c['n'])
    for f, P in (('NurbsCurve::Check', P4), ('BsplineCurve::Check|XYZ>', P3), ('BsplineCurve::Check|XYZW>', P4)):
        r = E.call(f, {'Degree': c['p'], 'KnotVector': kv, 'ControlPoints': P})
        E.check('%s accepts exactly the well-formed curves' % f.split('|')[0], (r.exc is None) if good else r.exc in REJ)
    good = c['p'] > 0 and c['n'] == c['p'] + 1
    for f, P in (('BezierCurve::Check|XYZ>', P3), ('BezierCurve::Check|XYZW>', P4)):
        r = E.call(f, {'Degree': c['p'], 'ControlPoints': P})
        E.check('BezierCurve::Check accepts exactly degree + 1 control points', (r.exc is None) if good else r.exc in REJ)


def _surfaces():
    g = {'p': 2, 'nk': 7, 'n': 4, 'ord': 1}
    out = []
    for d in (0, 1):
        for b in [g, dict(g, p=0), dict(g, p=-1), dict(g, nk=0), dict(g, nk=6), dict(g, nk=8), dict(g, n=3), dict(g, n=5), dict(g, p=1), dict(g, p=3)] + [dict(g, ord=0, w=w) for w in range(6)]:
            out.append({'dir': d, 'b': b})
    out.append({'dir': 0, 'b': dict(g, n=0)})
    return out


@contract('valid.surface', ['NurbsSurface::Check', 'BsplineSurface::Check', 'BezierSurface::Check'], _surfaces(), summaries='none', trials=2)
def validsurface(E, c):
    g = {'p': 1, 'nk': 5, 'n': 3, 'ord': 1}
    b = c['b']
    ab = (b, g) if c['dir'] == 0 else (g, b)
    ks = [_knots(E, x, n) for x, n in zip(ab, 'st')]
    good = all(x['p'] > 0 and x['nk'] > 0 and x['ord'] == 1 and x['n'] > 0 and x['nk'] == x['n'] + x['p'] + 1 for x in ab)
    P3, P4 = E.net('P', ab[0]['n'], ab[1]['n']), E.wnet('Q', ab[0]['n'], ab[1]['n'])
    for f, P in (('NurbsSurface::Check', P4), ('BsplineSurface::Check|XYZ>', P3), ('BsplineSurface::Check|XYZW>', P4)):
        r = E.call(f, {'DegreeU': ab[0]['p'], 'DegreeV': ab[1]['p'], 'KnotVectorU': ks[0], 'KnotVectorV': ks[1], 'ControlPoints': P})
        E.check('%s accepts exactly the well-formed surfaces' % f.split('|')[0], (r.exc is None) if good else r.exc in REJ)
    good = all(x['p'] > 0 and x['n'] == x['p'] + 1 for x in ab)
    for f, P in (('BezierSurface::Check|XYZ>', P3), ('BezierSurface::Check|XYZW>', P4)):
        r = E.call(f, {'DegreeU': ab[0]['p'], 'DegreeV': ab[1]['p'], 'ControlPoints': P})
        E.check('BezierSurface::Check accepts exactly (p+1)(q+1) control points', (r.exc is None) if good else r.exc in REJ)


# ---------------------------------------------------------------- rejected arguments, function by function
class A:
    """valid ingredients"""

    def __init__(s, E):
        s.E = E
        s.o = one(E)
        s.z = 0 * s.o
        s.C, s.kv, _, _ = draw_curve(E, 2, [3, 1, 3])
        s.lo, s.hi = s.kv.v[0], s.kv.v[-1]
        s.mid = s.kv.v[3]
        e = E.pos('e')
        gap = Fraction(1, 1000) if E.sym else 1e-3
        s.below, s.above = s.lo - gap - e, s.hi + gap + e
        s.zero = (s.z, s.z, s.z)
        s.S = s.ku = None
        s.neg = -E.pos('n')
        s.pos = gap + E.pos('q')

    def surf(s):
        if s.S is None:
            s.S, s.ku, s.kw, _, _ = draw_surface(s.E, 2, [3, 1, 3], 1, [2, 1, 2], name='s')
        return s.S

    def uv(s, d, w):
        """(u, v) with coordinate d out of range"""
        s.surf()
        k = [s.ku, s.kw]
        gap = Fraction(1, 1000) if s.E.sym else 1e-3
        e = gap + s.E.pos('e2')
        p = [k[0].v[3], k[1].v[2]]
        if w:
            p[d] = k[d].v[0] - e if w < 0 else k[d].v[-1] + e
        return tuple(p)

    def pt(s, n):
        return s.E.point(n)


def nz(x):
    return x


T = {}


def rej(key, fn, good, *bad, ok=True):
    T[key] = (fn, good, bad, ok)


# evaluation: parameter outside the domain
for _k, _f, _pre in (('eval', 'NurbsCurve::GetPointOnCurve', ()), ('ders', 'NurbsCurve::ComputeRationalCurveDerivatives', (1,)), ('corner', 'NurbsCurve::GetPointOnCurveByCornerCut', ()),
                     ('curvature', 'NurbsCurve::Curvature', ()), ('torsion', 'NurbsCurve::Torsion', ()), ('normal', 'NurbsCurve::Normal', (0,)),
                     ('bspt', 'BsplineCurve::GetPointOnCurve|XYZW>', ()), ('bsders', 'BsplineCurve::ComputeDerivatives|XYZW>', (1,)), ('bsders2', 'BsplineCurve::ComputeDerivativesByAllBasisFunctions|XYZW>', (1,))):
    rej(_k, _f, (lambda pre: lambda a: [a.C] + list(pre) + [a.mid])(_pre), ('parameter below the domain', lambda a, g: g[:-1] + [a.below]), ('parameter above the domain', lambda a, g: g[:-1] + [a.above]), ok=_k not in ('curvature', 'torsion', 'normal'))
rej('bsorder', 'BsplineCurve::ComputeDerivatives|XYZW>', lambda a: [a.C, 1, a.mid], ('derivative order zero', lambda a, g: [g[0], 0, g[2]]), ('negative derivative order', lambda a, g: [g[0], -1, g[2]]))
for _k, _f, _pre in (('seval', 'NurbsSurface::GetPointOnSurface', ()), ('sders', 'NurbsSurface::ComputeRationalSurfaceDerivatives', (1,)), ('scurv', 'NurbsSurface::Curvature', (0,)), ('snormal', 'NurbsSurface::Normal', ()),
                     ('bsspt', 'BsplineSurface::GetPointOnSurface|XYZW>', ()), ('bssders', 'BsplineSurface::ComputeDerivatives|XYZW>', (1,)), ('bssders2', 'BsplineSurface::ComputeDerivativesByAllBasisFunctions|XYZW>', (1,))):
    rej(_k, _f, (lambda pre: lambda a: [a.surf()] + list(pre) + [a.uv(0, 0)])(_pre), *[('%s %s the domain' % ('uv'[d], 'below' if w < 0 else 'above'), (lambda d, w: lambda a, g: g[:-1] + [a.uv(d, w)])(d, w)) for d in (0, 1) for w in (-1, 1)], ok=_k not in ('scurv', 'snormal'))
rej('sders1', 'NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative', lambda a: [a.surf(), a.uv(0, 0), None, None, None], *[('%s %s the domain' % ('uv'[d], 'below' if w < 0 else 'above'), (lambda d, w: lambda a, g: [g[0], a.uv(d, w)] + g[2:])(d, w)) for d in (0, 1) for w in (-1, 1)])
rej('sorder', 'NurbsSurface::ComputeRationalSurfaceDerivatives', lambda a: [a.surf(), 1, a.uv(0, 0)], ('derivative order zero', lambda a, g: [g[0], 0, g[2]]), ('negative order', lambda a, g: [g[0], -2, g[2]]))
# Bezier
_bz = lambda a: {'Degree': 2, 'ControlPoints': a.E.wpoints('B', 3)}
for _k, _f in (('bezb', 'BezierCurve::GetPointOnCurveByBernstein|XYZW>'), ('bezd', 'BezierCurve::GetPointOnCurveByDeCasteljau|XYZW>')):
    rej(_k, _f, lambda a: [_bz(a), a.o / 3], ('t < 0', lambda a, g: [g[0], -a.pos]), ('t > 1', lambda a, g: [g[0], 1 + a.pos]))
# Polynomials
rej('bern', 'Polynomials::Bernstein', lambda a: [1, 3, a.o / 3], ('index above the degree', lambda a, g: [4] + g[1:]), ('negative index', lambda a, g: [-1] + g[1:]), ('t < 0', lambda a, g: g[:2] + [-a.pos]), ('t > 1', lambda a, g: g[:2] + [1 + a.pos]))
rej('allbern', 'Polynomials::AllBernstein', lambda a: [3, a.o / 3], ('negative degree', lambda a, g: [-1, g[1]]), ('t < 0', lambda a, g: [3, -a.pos]), ('t > 1', lambda a, g: [3, 1 + a.pos]))
rej('horner', 'Polynomials::Horner|(int, const vector<double>', lambda a: [2, [a.o, a.o, a.o], a.o], ('degree zero', lambda a, g: [0] + g[1:]), ('too few coefficients', lambda a, g: [2, g[1][:2], g[2]]), ('too many coefficients', lambda a, g: [2, g[1] * 2, g[2]]))
rej('horner2', 'Polynomials::Horner|(int, int, const vector<vector<double>>', lambda a: [1, 1, [[a.o, a.o], [a.o, a.o]], (a.o / 2, a.o / 3)], ('degree U zero', lambda a, g: [0] + g[1:]), ('degree V zero', lambda a, g: [1, 0] + g[2:]), ('no coefficients', lambda a, g: [1, 1, [], g[3]]),
    ('missing row', lambda a, g: [1, 1, g[2][:1], g[3]]), ('missing column', lambda a, g: [1, 1, [x[:1] for x in g[2]], g[3]]), ('u < 0', lambda a, g: g[:3] + [(-a.pos, a.o)]), ('v > 1', lambda a, g: g[:3] + [(a.o, 1 + a.pos)]), ('u > 1', lambda a, g: g[:3] + [(1 + a.pos, a.o)]), ('v < 0', lambda a, g: g[:3] + [(a.o, -a.pos)]))
_dec = lambda a: list(reversed(a.kv.v))
rej('mult', 'Polynomials::GetKnotMultiplicity', lambda a: [a.kv.v, a.mid], ('no knots', lambda a, g: [[], g[1]]), ('decreasing knots', lambda a, g: [_dec(a), g[1]]), ('knot below', lambda a, g: [g[0], a.below]), ('knot above', lambda a, g: [g[0], a.above]))
rej('span', 'Polynomials::GetKnotSpanIndex', lambda a: [2, a.kv.v, a.mid], ('negative degree', lambda a, g: [-1] + g[1:]), ('no knots', lambda a, g: [2, [], g[2]]), ('decreasing knots', lambda a, g: [2, _dec(a), g[2]]), ('below', lambda a, g: g[:2] + [a.below]), ('above', lambda a, g: g[:2] + [a.above]))
for _k, _f, _d in (('onebasis', 'Polynomials::OneBasisFunction', None), ('onebasisder', 'Polynomials::OneBasisFunctionDerivative', 1), ('basisder', 'Polynomials::BasisFunctionsDerivatives', 1), ('allbasis', 'Polynomials::AllBasisFunctions', None)):
    _g = (lambda d: lambda a: [3, 2] + ([d] if d is not None else []) + [a.kv.v, a.mid])(_d)
    _b = [('negative span', lambda a, g: [-1] + g[1:]), ('negative degree', lambda a, g: [3, -1] + g[2:]), ('no knots', lambda a, g: g[:-2] + [[], g[-1]]), ('decreasing knots', lambda a, g: g[:-2] + [_dec(a), g[-1]]),
          ('below', lambda a, g: g[:-1] + [a.below]), ('above', lambda a, g: g[:-1] + [a.above])]
    if _d is not None:
        _b.append(('derivative above the degree', lambda a, g: g[:2] + [3] + g[3:]))
    if _k in ('basisder', 'allbasis'):
        _b.append(('degree above the maximum', lambda a, g: [3, 8] + g[2:]))
    rej(_k, _f, _g, *_b)
# knot operations
rej('insert', 'NurbsCurve::InsertKnot', lambda a: [a.C, a.mid, 1, None], ('zero times', lambda a, g: [g[0], g[1], 0, None]), ('negative times', lambda a, g: [g[0], g[1], -1, None]), ('below', lambda a, g: [g[0], a.below, 1, None]), ('above', lambda a, g: [g[0], a.above, 1, None]))
rej('refine', 'NurbsCurve::RefineKnotVector', lambda a: [a.C, [a.mid], None], ('nothing to insert', lambda a, g: [g[0], [], None]))
rej('remove', 'NurbsCurve::RemoveKnot', lambda a: [a.C, a.mid, 1, None], ('zero times', lambda a, g: [g[0], g[1], 0, None]), ('below', lambda a, g: [g[0], a.below, 1, None]), ('above', lambda a, g: [g[0], a.above, 1, None]), ok=False)
rej('elevate', 'NurbsCurve::ElevateDegree', lambda a: [a.C, 1, None], ('zero times', lambda a, g: [g[0], 0, None]), ('negative times', lambda a, g: [g[0], -1, None]))
rej('srefine', 'NurbsSurface::RefineKnotVector', lambda a: [a.surf(), [a.ku.v[3]], True, None], ('nothing to insert in u', lambda a, g: [g[0], [], True, None]), ('nothing to insert in v', lambda a, g: [g[0], [], False, None]))
rej('sremove', 'NurbsSurface::RemoveKnot', lambda a: [a.surf(), a.ku.v[3], 1, True, None], ('zero times', lambda a, g: g[:2] + [0, True, None]), *[('%s %s' % ('uv'[d], 'below' if w < 0 else 'above'), (lambda d, w: lambda a, g: [g[0], a.uv(d, w)[d], 1, d == 0, None])(d, w)) for d in (0, 1) for w in (-1, 1)], ok=False)
rej('selevate', 'NurbsSurface::ElevateDegree', lambda a: [a.surf(), 1, True, None], ('zero times u', lambda a, g: [g[0], 0, True, None]), ('zero times v', lambda a, g: [g[0], 0, False, None]))
rej('extract', 'NurbsCurve::Extract', lambda a: [a.C, a.lo, a.mid, None], ('start below', lambda a, g: [g[0], a.below, a.mid, None]), ('end above', lambda a, g: [g[0], a.mid, a.above, None]), ('empty range', lambda a, g: [g[0], a.mid, a.mid, None]), ('reversed range', lambda a, g: [g[0], a.hi, a.lo, None]))
rej('repar', 'NurbsCurve::Reparametrize|double, double, double, double', lambda a: [a.C, a.o, a.z, a.z, a.o, None], ('singular', lambda a, g: [g[0], a.o, a.o, a.o, a.o, None]), ('decreasing', lambda a, g: [g[0], a.o, a.z, a.z, -a.pos, None]))
# construction
rej('line', 'NurbsCurve::CreateLine', lambda a: [a.zero, (a.o, a.o, a.o), None], ('equal end points', lambda a, g: (lambda p: [p, p, None])(a.pt('L'))))
_arc = lambda a: [a.pt('c'), (a.o, a.z, a.z), (a.z, a.o, a.z), a.z, a.o, a.pos, a.pos, None]
rej('arc', 'NurbsCurve::CreateArc', _arc, ('zero x axis', lambda a, g: [g[0], a.zero] + g[2:]), ('zero y axis', lambda a, g: g[:2] + [a.zero] + g[3:]), ('empty sweep', lambda a, g: g[:3] + [a.o, a.o] + g[5:]), ('negative sweep', lambda a, g: g[:3] + [a.o, a.z] + g[5:]), ('more than a full turn', lambda a, g: g[:3] + [a.z, 7 * a.o] + g[5:]),
    ('zero x radius', lambda a, g: g[:5] + [a.z] + g[6:]), ('negative x radius', lambda a, g: g[:5] + [a.neg] + g[6:]), ('zero y radius', lambda a, g: g[:6] + [a.z, None]), ('negative y radius', lambda a, g: g[:6] + [a.neg, None]))
_con = lambda a: [(-a.o, a.z, a.z), (a.z, a.o, a.z), (a.o, a.z, a.z), (a.z, -a.o, a.z), (a.z, a.o, a.z)]
rej('onearc', 'NurbsCurve::CreateOneConicArc', lambda a: _con(a) + [None, None], ('zero start tangent', lambda a, g: [g[0], a.zero] + g[2:]), ('zero end tangent', lambda a, g: g[:3] + [a.zero] + g[4:]))
rej('conic', 'NurbsCurve::CreateOpenConic', lambda a: _con(a) + [None], ('zero start tangent', lambda a, g: [g[0], a.zero] + g[2:]), ('zero end tangent', lambda a, g: g[:3] + [a.zero] + g[4:]))
rej('hermite', 'NurbsCurve::CreateCubicHermite', lambda a: [a.E.points('H', 4), a.E.points('I', 4), None], ('three points', lambda a, g: [g[0][:3], g[1][:3], None]), ('missing tangent', lambda a, g: [g[0], g[1][:3], None]), ok=False)
_cyl = lambda a: [a.pt('c'), (a.o, a.z, a.z), (a.z, a.o, a.z), a.z, a.o, a.pos, a.pos, None]
rej('cylinder', 'NurbsSurface::CreateCylindricalSurface', _cyl, ('zero x axis', lambda a, g: [g[0], a.zero] + g[2:]), ('zero y axis', lambda a, g: g[:2] + [a.zero] + g[3:]), ('empty sweep', lambda a, g: g[:3] + [a.o, a.o] + g[5:]), ('negative sweep', lambda a, g: g[:3] + [a.o, a.z] + g[5:]),
    ('zero radius', lambda a, g: g[:5] + [a.z] + g[6:]), ('negative radius', lambda a, g: g[:5] + [a.neg] + g[6:]), ('zero height', lambda a, g: g[:6] + [a.z, None]), ('negative height', lambda a, g: g[:6] + [a.neg, None]), ok=False)
rej('revolve', 'NurbsSurface::CreateRevolvedSurface', lambda a: [a.pt('c'), (a.z, a.z, a.o), a.o, a.C, None], ('zero axis', lambda a, g: [g[0], a.zero] + g[2:]), ok=False)
rej('ruled', 'NurbsSurface::CreateRuledSurface', lambda a: [a.C, dict(a.C, ControlPoints=a.E.wpoints('R', 4)), None], ('different parameter ranges', lambda a, g: [g[0], dict(g[1], KnotVector=g[1]['KnotVector'][:4] + [a.above] * 3), None]),
    ('different start', lambda a, g: [dict(g[0], KnotVector=[a.below] * 3 + g[0]['KnotVector'][3:]), g[1], None]))
rej('rays', 'Intersection::ComputeRays', lambda a: [a.zero, (a.o, a.z, a.z), (a.o, a.o, a.z), (a.z, a.o, a.z), None, None, None], ('zero first direction', lambda a, g: [g[0], a.zero] + g[2:]), ('zero second direction', lambda a, g: g[:3] + [a.zero] + g[4:]))
# interpolation, approximation
rej('ginterp', 'NurbsCurve::GlobalInterpolation|vector<XYZ> &, LN_NurbsCurve &', lambda a: [2, a.E.points('D', 4), None, []], ('negative degree', lambda a, g: [-1] + g[1:]), ('degree above the maximum', lambda a, g: [8, a.E.points('D', 10), None, []]), ('too few points', lambda a, g: [2, g[1][:2], None, []]), ('wrong number of parameters', lambda a, g: [2, g[1], None, [a.z, a.o]]), ok=False)
rej('ginterpt', 'NurbsCurve::GlobalInterpolation|vector<XYZ> &, const vector<XYZ> &, double', lambda a: [2, a.E.points('D', 4), a.E.points('F', 4), a.o, None], ('degree zero', lambda a, g: [0] + g[1:]), ('missing tangent', lambda a, g: [2, g[1], g[2][:3], a.o, None]), ('too few points', lambda a, g: [2, g[1][:2], g[2][:2], a.o, None]), ('zero factor', lambda a, g: g[:3] + [a.z, None]), ('negative factor', lambda a, g: g[:3] + [a.neg, None]), ok=False)
rej('clocal', 'NurbsCurve::CubicLocalInterpolation', lambda a: [[], None], ('no points', lambda a, g: [[], None]), ok=False)
rej('sinterp', 'NurbsSurface::GlobalInterpolation', lambda a: [a.E.net('D', 3, 3), 2, 2, None], ('no rows', lambda a, g: [[], 2, 2, None]), ('empty rows', lambda a, g: [[[], []], 1, 1, None]), ('negative degree u', lambda a, g: [g[0], -1, 2, None]), ('negative degree v', lambda a, g: [g[0], 2, -1, None]), ('degree u above the maximum', lambda a, g: [g[0], 8, 2, None]), ('degree v above the maximum', lambda a, g: [g[0], 2, 8, None]), ('too few rows', lambda a, g: [g[0][:2], 2, 2, None]), ('too few columns', lambda a, g: [[x[:2] for x in g[0]], 2, 2, None]), ok=False)
rej('bicubic', 'NurbsSurface::BicubicLocalInterpolation', lambda a: [a.E.net('D', 4, 4), None], ('no rows', lambda a, g: [[], None]), ('empty rows', lambda a, g: [[[], []], None]), ('ragged rows', lambda a, g: [g[0][:3] + [g[0][3][:3]], None]), ok=False)
rej('lsq', 'NurbsCurve::LeastSquaresApproximation', lambda a: [2, a.E.points('D', 6), 4, None], ('negative degree', lambda a, g: [-1] + g[1:]), ('degree above the maximum', lambda a, g: [8] + g[1:]), ('no control points', lambda a, g: g[:2] + [0, None]), ('negative count', lambda a, g: g[:2] + [-3, None]), ok=False)
_wl = lambda a: [2, a.E.points('D', 5), [a.o] * 5, [a.pt('F')], [1], [a.o], 4, None]
rej('wlsq', 'NurbsCurve::WeightedAndContrainedLeastSquaresApproximation', _wl, ('degree zero', lambda a, g: [0] + g[1:]), ('too few points', lambda a, g: [2, g[1][:2], g[2][:2]] + g[3:]), ('missing weight', lambda a, g: g[:2] + [g[2][:4]] + g[3:]), ('missing index', lambda a, g: g[:4] + [[]] + g[5:]), ('missing tangent weight', lambda a, g: g[:5] + [[]] + g[6:]), ('index too large', lambda a, g: g[:4] + [[5]] + g[5:]), ('negative index', lambda a, g: g[:4] + [[-1]] + g[5:]), ok=False)
rej('errbound', 'NurbsCurve::ComputerRemoveKnotErrorBound', lambda a: [a.C, 3], ('negative index', lambda a, g: [g[0], -1]), ('index too large', lambda a, g: [g[0], 7]), ok=False)
rej('rembound', 'NurbsCurve::RemoveKnotsByGivenBound', lambda a: [a.C, [a.lo, a.mid, a.hi], [a.z] * 3, a.pos, None], ('no parameters', lambda a, g: [g[0], [], [], g[3], None]), ('missing error', lambda a, g: [g[0], g[1], [a.z] * 2, g[3], None]), ('zero bound', lambda a, g: g[:3] + [a.z, None]), ('negative bound', lambda a, g: g[:3] + [a.neg, None]), ok=False)
rej('gapprox', 'NurbsCurve::GlobalApproximationByErrorBound', lambda a: [2, a.E.points('D', 5), a.pos, None], ('degree zero', lambda a, g: [0] + g[1:]), ('too few points', lambda a, g: [2, g[1][:2]] + g[2:]), ('zero bound', lambda a, g: g[:2] + [a.z, None]), ('negative bound', lambda a, g: g[:2] + [a.neg, None]), ok=False)
for _k, _f in (('fitconic', 'NurbsCurve::FitWithConic'), ('fitcubic', 'NurbsCurve::FitWithCubic')):
    rej(_k, _f, lambda a: [a.E.points('D', 5), 0, 4, (a.o, a.o, a.z), (a.o, -a.o, a.z), a.pos, None], ('no points', lambda a, g: [[]] + g[1:]), ('negative start', lambda a, g: [g[0], -1] + g[2:]), ('start too large', lambda a, g: [g[0], 5, 6] + g[3:]), ('end before start', lambda a, g: [g[0], 2, 2] + g[3:]), ('end too large', lambda a, g: [g[0], 0, 5] + g[3:]), ('zero start tangent', lambda a, g: g[:3] + [a.zero] + g[4:]), ('zero end tangent', lambda a, g: g[:4] + [a.zero] + g[5:]), ok=False)
_ga = lambda a: [a.E.net('D', 5, 5), 2, 2, 4, 4, None]
rej('sgapprox', 'NurbsSurface::GlobalApproximation', _ga, ('no rows', lambda a, g: [[]] + g[1:]), ('empty rows', lambda a, g: [[[]] * 5] + g[1:]), ('degree u zero', lambda a, g: [g[0], 0] + g[2:]), ('degree v zero', lambda a, g: g[:2] + [0] + g[3:]), ('degree u above the maximum', lambda a, g: [g[0], 8, 2, 9, 9, None]), ('degree v above the maximum', lambda a, g: [g[0], 2, 8, 9, 9, None]), ('too few control rows', lambda a, g: g[:3] + [2, 4, None]), ('too few control columns', lambda a, g: g[:4] + [2, None]), ok=False)
# edits
_rng = lambda i: [('parameter below', lambda a, g: g[:i] + [a.below] + g[i + 1:]), ('parameter above', lambda a, g: g[:i] + [a.above] + g[i + 1:])]
_idx = lambda i: [('negative index', lambda a, g: g[:i] + [-1] + g[i + 1:]), ('index too large', lambda a, g: g[:i] + [4] + g[i + 1:])]
rej('reposition', 'NurbsCurve::ControlPointReposition', lambda a: [a.C, a.mid, 1, (a.o, a.z, a.z), a.o, None], *_rng(1), *_idx(2), ('zero direction', lambda a, g: g[:3] + [a.zero] + g[4:]), ('zero distance', lambda a, g: g[:4] + [a.z, None]), ok=False)
rej('weightmod', 'NurbsCurve::WeightModification', lambda a: [a.C, a.mid, 1, a.o, None], *_rng(1), *_idx(2), ('zero distance', lambda a, g: g[:3] + [a.z, None]), ok=False)
rej('weights2', 'NurbsCurve::NeighborWeightsModification', lambda a: [a.C, a.mid, 1, a.o, a.o, None], *_rng(1), *_idx(2), ('zero distance', lambda a, g: g[:3] + [a.z] + g[4:]), ('zero scale', lambda a, g: g[:4] + [a.z, None]), ok=False)
_two = lambda i: [('start below', lambda a, g: g[:i] + [a.below] + g[i + 1:]), ('end above', lambda a, g: g[:i + 1] + [a.above] + g[i + 2:]), ('empty range', lambda a, g: g[:i] + [a.mid, a.mid] + g[i + 2:]), ('reversed range', lambda a, g: g[:i] + [a.hi, a.lo] + g[i + 2:])]
rej('warp', 'NurbsCurve::Warping', lambda a: [a.C, [a.o] * 4, a.o, (a.z, a.z, a.o), a.lo, a.hi, None], ('wrong shape size', lambda a, g: [g[0], [a.o] * 3] + g[2:]), ('zero distance', lambda a, g: g[:2] + [a.z] + g[3:]), ('zero normal', lambda a, g: g[:3] + [a.zero] + g[4:]), *_two(4), ok=False)
rej('flatten', 'NurbsCurve::Flattening', lambda a: [a.C, a.zero, (a.o, a.z, a.z), a.lo, a.hi, None], ('zero-length line', lambda a, g: (lambda p: [g[0], p, p] + g[3:])(a.pt('L'))), *_two(3), ok=False)
rej('bend', 'NurbsCurve::Bending', lambda a: [a.C, a.lo, a.hi, a.zero, a.o, a.o, None], *_two(1), ok=False)
rej('contin', 'KnotVectorUtils::GetContinuity', lambda a: [2, a.kv.v, a.mid], ('degree zero', lambda a, g: [0] + g[1:]), ('negative degree', lambda a, g: [-1] + g[1:]))
_ins = 'KnotVectorUtils::GetInsertedKnotElement|(int, const vector<double> &, double, double)'
rej('insdomain', _ins, lambda a: [2, a.kv.v, a.lo, a.hi], ('negative degree', lambda a, g: [-1] + g[1:]), ('no knots', lambda a, g: [2, []] + g[2:]), ('reversed range', lambda a, g: g[:2] + [a.hi, a.lo]), ('decreasing knots', lambda a, g: [2, _dec(a)] + g[2:]))


def _cases():
    out = []
    for k, (f, g, bad, ok) in T.items():
        for i in range(-1 if ok else 0, len(bad)):
            out.append({'f': k, 'bad': i})
    return out


@contract('valid.reject', sorted({v[0].split('|')[0] for v in T.values()}), _cases(), summaries='gpz', trials=3, note='one invalid argument at a time, the others valid')
def validreject(E, c):
    fn, good, bad, _ = T[c['f']]
    a = A(E)
    g = good(a)
    name = fn.split('|')[0].split('::')[-1]
    if c['bad'] < 0:
        r = E.call(fn, *g)
        E.check('%s accepts valid arguments' % name, r.exc is None)
        return
    label, f = bad[c['bad']]
    r = E.call(fn, *f(a, g))
    E.check('%s rejects: %s' % (name, label), r.exc in REJ)


@contract('valid.volume', ['NurbsVolume::Check'], [{'k': k, 's': s} for k in ('good', 'mirror', 'fold') for s in (0, 1)] + [{'k': k, 's': 0, 'c': c} for c in range(8) for k in ('dent', 'inside')], trials=2, native_only=True, noconf=True, nat_budget=15)
def valid_volume(E, c):
    """a volume is accepted iff its Jacobian determinant is positive (sampled on a grid)"""
    import spec
    ps, ms = [((1, 1, 1), ([2, 2], [2, 2], [2, 2])), ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 3]))][c['s']]
    V, ks, _, _ = draw_volume(E, ps, ms, ((), (), ()))
    V['ControlPoints'] = [[[tuple(2.0 * n + 0.1 * x / (1 + abs(x)) for n, x in zip((i, j, k), spec.proj(P))) + (1.0,) for k, P in enumerate(r)] for j, r in enumerate(q)] for i, q in enumerate(V['ControlPoints'])]
    N = V['ControlPoints']
    if 'c' in c:                # one corner moved along the diagonal just past (dent) or just short of (inside) the plane of its neighbours
        x = [c['c'] >> d & 1 for d in range(3)]
        s = 1 / 3 + (1e-4 if c['k'] == 'dent' else -1e-4)
        V['ControlPoints'] = N = [[[(2.0 * i, 2.0 * j, 2.0 * k, 1.0) for k in range(2)] for j in range(2)] for i in range(2)]
        N[x[0]][x[1]][x[2]] = tuple(2 * s if y == 0 else 2 - 2 * s for y in x) + (1.0,)
        E.check('positive Jacobian determinant at corner %d too' % c['c'], bool(E.ok('NurbsVolume::Check', V).ret) == (c['k'] == 'inside'))
        return
    if c['k'] == 'mirror':
        V['ControlPoints'] = N[::-1]
    elif c['k'] == 'fold':
        P = N[0][0][0]
        N[0][0][0] = (P[0] + 4.0 * (len(N) - 1), P[1] + 0.3, P[2] + 0.2, 1.0)     # one corner pushed through the opposite face
    E.check('positive Jacobian determinant', bool(E.ok('NurbsVolume::Check', V).ret) == (c['k'] == 'good'))
