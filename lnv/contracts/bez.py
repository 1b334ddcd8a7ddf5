"""C18: Bezier curves and surfaces, Bernstein polynomials, power basis."""
from .base import *
import spec
from math import comb
from fractions import Fraction


def degrees(tier, lits):
    return [{'n': n, 'at': a} for n in range(1, 9 if tier == 'quick' else 13) for a in (0, 1, 'in')]


def param(E, c, name='t'):
    return E.between(name, 0, 1) if c['at'] == 'in' else (Fraction(c['at']) if E.sym else float(c['at']))


@contract('bernstein', ['Polynomials::Bernstein', 'Polynomials::AllBernstein'], lambda tier, lits: [{'n': 0, 'at': 'in'}] + degrees(tier, lits), trials=5)
def bernstein(E, c):
    n = c['n']
    t = param(E, c)
    want = [spec.bernstein(i, n, t) for i in range(n + 1)]
    got = E.ok('Polynomials::AllBernstein', n, t).ret
    E.eq('all Bernstein polynomials B_i,n(t)', got, want)
    for i in range(n + 1):
        E.eq('B_i,n(t) = C(n,i) t^i (1-t)^(n-i)', E.ok('Polynomials::Bernstein', i, n, t).ret, want[i])


def _pow(t, i):
    r = 1
    for _ in range(i):
        r = r * t
    return r


@contract('horner', ['Polynomials::Horner'], lambda tier, lits: [{'n': n, 'm': m} for n in (1, 2, 3, 4, 6) for m in (0, 1, 2, 3)], trials=5)
def horner(E, c):
    n, m = c['n'], c['m']
    if m == 0:
        a = [E.real('a%d' % i) for i in range(n + 1)]
        t = E.real('t')
        E.eq('sum a_i t^i', E.ok('Polynomials::Horner|(int, const vector<double>', n, a, t).ret, sum(x * _pow(t, i) for i, x in enumerate(a)))
        return
    a = [[E.real('a%d_%d' % (i, j)) for j in range(m + 1)] for i in range(n + 1)]
    u, v = E.between('u', 0, 1), E.between('v', 0, 1)
    E.eq('sum a_ij u^i v^j', E.ok('Polynomials::Horner|(int, int', n, m, a, (u, v)).ret, sum(x * _pow(u, i) * _pow(v, j) for i, r in enumerate(a) for j, x in enumerate(r)))


@contract('powermat', ['Polynomials::BezierToPowerMatrix', 'Polynomials::PowerToBezierMatrix'], lambda tier, lits: [{'n': n} for n in range(1, 11 if tier == 'quick' else 16)], trials=1)
def powermat(E, c):
    n = c['n']
    M = E.ok('Polynomials::BezierToPowerMatrix', n).ret
    # sum_j B_j,n(t) P_j = sum_i a_i t^i with a = M P
    E.eq('Bezier to power basis', M, [[(-1) ** (i - j) * comb(n, j) * comb(n - j, i - j) if i >= j else 0 for j in range(n + 1)] for i in range(n + 1)])
    R = E.ok('Polynomials::PowerToBezierMatrix', n, M).ret
    E.eq('power basis to Bezier', R, [[Fraction(comb(i, j), comb(n, j)) if j <= i else 0 for j in range(n + 1)] for i in range(n + 1)] if E.sym else [[comb(i, j) / comb(n, j) if j <= i else 0.0 for j in range(n + 1)] for i in range(n + 1)])


@contract('bezcurve', ['BezierCurve::GetPointOnCurveByBernstein', 'BezierCurve::GetPointOnCurveByDeCasteljau'], degrees, trials=5)
def bezcurve(E, c):
    n = c['n']
    t = param(E, c)
    for rat, sig in ((False, '|XYZ (const'), (True, '|XYZW (const')):
        P = E.wpoints('Q', n + 1) if rat else E.points('P', n + 1)
        want = spec.blossom_bezier(P, t)
        C = {'Degree': n, 'ControlPoints': P}
        E.eq('Bernstein form', E.ok('BezierCurve::GetPointOnCurveByBernstein' + sig, C, t).ret, want)
        E.eq('de Casteljau', E.ok('BezierCurve::GetPointOnCurveByDeCasteljau' + sig, C, t).ret, want)


@contract('bezsurf', ['BezierSurface::GetPointOnSurfaceByDeCasteljau'], lambda tier, lits: [{'n': n, 'm': m, 'at': a} for n in (1, 2, 3, 5) for m in (1, 2, 4) for a in (0, 1, 'in')], trials=4)
def bezsurf(E, c):
    n, m = c['n'], c['m']
    u, v = param(E, c, 'u'), E.between('v', 0, 1)
    for rat, sig in ((False, '|XYZ (const'), (True, '|XYZW (const')):
        P = E.wnet('Q', n + 1, m + 1) if rat else E.net('P', n + 1, m + 1)
        want = spec.blossom_bezier([spec.blossom_bezier(r, v) for r in P], u)
        S = {'DegreeU': n, 'DegreeV': m, 'ControlPoints': P}
        E.eq('S(u,v) = sum B_i(u) B_j(v) P_ij', E.ok('BezierSurface::GetPointOnSurfaceByDeCasteljau' + sig, S, (u, v)).ret, want)


@contract('bezarc', ['BezierCurve::GetPointOnQuadraticArc'], [{'at': a} for a in (0, 1, 'in')], trials=8)
def bezarc(E, c):
    P = E.wpoints('P', 3)
    t = param(E, c)
    E.eq('rational quadratic Bezier arc', E.ok('BezierCurve::GetPointOnQuadraticArc', *P, t).ret, spec.proj(spec.blossom_bezier(P, t)))
