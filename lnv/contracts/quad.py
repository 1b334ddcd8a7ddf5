"""C35 quadrature, curve length, surface area, parameters by length."""
from fractions import Fraction
from .base import *
from .geo import vsub, vadd, vmul, dot, cross, one
from .inv import reaches, where, dist, inside, frac, patch
import spec

TYPES = {'Simpson': 0, 'GaussLegendre': 1, 'Chebyshev': 2}


def poly(cs, t):
    r = 0
    for x in reversed(cs):
        r = r * t + x
    return r


def integral(cs, a, b, one_):
    """sum c_i (b^(i+1) - a^(i+1)) / (i+1)"""
    r = 0
    pa, pb = one_, one_
    for i, x in enumerate(cs):
        pa, pb = pa * a, pb * b
        r = r + x * (pb - pa) / (i + 1)
    return r


@contract('simpson', ['Integrator::Simpson'], [{'n': n} for n in range(4)], unbounded=True, trials=10, note='exact for every cubic on every interval (which determines the three-point rule)')
def simpson(E, c):
    a, b = E.real('a'), E.real('b')
    cs = [E.real('c%d' % i) for i in range(c['n'] + 1)]
    E.eq('exact for cubics', E.ok('LnvGlue::SimpsonPoly', cs, a, b).ret, integral(cs, a, b, one(E)), 1e-6)


@contract('simpson2', ['Integrator::Simpson'], [{'n': n, 'm': m} for n, m in ((0, 0), (1, 2), (3, 1), (2, 3), (3, 3))], unbounded=True, trials=10, note='exact for every bicubic on every rectangle')
def simpson2(E, c):
    a, b, u, v = E.real('a'), E.real('b'), E.real('u'), E.real('v')
    cs = [[E.real('c%d_%d' % (i, j)) for j in range(c['m'] + 1)] for i in range(c['n'] + 1)]
    o = one(E)
    E.eq('exact for bicubics', E.ok('LnvGlue::SimpsonPoly2', cs, a, b, u, v).ret, integral([integral(r, u, v, o) for r in cs], a, b, o), 1e-6)


@contract('gausstable', ['Integrator::GaussLegendreAbscissae'], [{}], trials=1, native_only=True, note='the constant tables: 24-point rule, exact for the monomials up to degree 47')
def gausstable(E, c):
    x, w = E.ok('LnvGlue::GaussNodes').ret, E.ok('LnvGlue::GaussWeights').ret
    E.check('as many weights as abscissae', len(x) == len(w) and len(x) >= 2)
    for k in range(2 * len(x)):
        E.eq('moment %d' % k, sum(b * a ** k for a, b in zip(x, w)), 0.0 if k % 2 else 2.0 / (k + 1), 1e-12)


@contract('clenshaw', ['Integrator::ChebyshevSeries', 'Integrator::ClenshawCurtisQuadrature', 'Integrator::ClenshawCurtisQuadrature2'], [{'n': n, 's': s} for n in range(9) for s in (0, 1, 2)], trials=6, native_only=True,
          note='polynomials up to degree 8, to the requested tolerance; the coefficient table can be used again')
def clenshaw(E, c):
    a = E.real('a', -2, 2)
    b = a + E.pos('h', 0.2, 3)
    cs = [E.real('c%d' % i) for i in range(c['n'] + 1)]
    cs[0] = cs[0] + 0.0
    w = integral(cs, a, b, 1)
    big = (b - a) * sum(abs(x) * max(abs(a), abs(b), 1) ** i for i, x in enumerate(cs))
    if c['s'] < 2:
        E.le('integral of the polynomial', abs(E.ok('LnvGlue::ClenshawPoly', cs, a, b, c['s'] == 1).ret - w), 2e-4 * (1 + big))
    else:
        d = [E.real('d%d' % i) for i in range(c['n'] + 1)]
        r = E.ok('LnvGlue::ClenshawTwice', cs, d, a, b).ret
        w2 = integral(d, a, b, 1)
        big += (b - a) * sum(abs(x) * max(abs(a), abs(b), 1) ** i for i, x in enumerate(d))
        E.le('integral of the first polynomial', abs(r[0] - w), 2e-4 * (1 + big))
        E.le('integral of the second polynomial with the same table', abs(r[1] - w2), 2e-4 * (1 + big))


# ---------------------------------------------------------------- length and area
G5 = [(0.0, 128 / 225), (0.5384693101056831, 0.47862867049936647), (-0.5384693101056831, 0.47862867049936647), (0.9061798459386640, 0.23692688505618908), (-0.9061798459386640, 0.23692688505618908)]


def speed(kv, p, P, i, u):
    d = spec.ratders([spec.curve(kv, p, P, i, u, k) for k in range(2)])[1]
    return dot(d, d) ** .5


def length(kv, p, P, lo, hi, n=16):
    s = 0.0
    for a, b, i in reaches(kv, p):
        a, b = max(a, lo), min(b, hi)
        if b <= a:
            continue
        for k in range(n):
            x, y = a + (b - a) * k / n, a + (b - a) * (k + 1) / n
            s += sum(w * speed(kv, p, P, i, (x + y) / 2 + (y - x) / 2 * g) for g, w in G5) * (y - x) / 2
    return s


def adaptive(kv, p, P, lo, hi):
    """the adaptive Simpson rule on the speed of the definition: by coincidence of its first samples it may stop early, far from the length"""
    R = reaches(kv, p)
    memo = {}

    def f(u):
        if u not in memo:
            i = [i for a, b, i in R if a <= u][-1]
            memo[u] = speed(kv, p, P, i, u)
        return memo[u]

    def simpson(a, b):
        return (b - a) / 6 * (f(a) + 4 * f((a + b) / 2) + f(b))

    def rec(a, b, s, tol, n):
        m = (a + b) / 2
        x, y = simpson(a, m), simpson(m, b)
        d = x + y - s
        if n > 14 or abs(d) < 15 * tol:
            return x + y + d / 15
        return rec(a, m, x, tol / 2, n + 1) + rec(m, b, y, tol / 2, n + 1)
    return rec(lo, hi, simpson(lo, hi), 1e-4, 0)


def rule_fits(E, t, kv, p, P, lo, hi, L):
    if t == 'Simpson':
        E.assume(abs(adaptive(kv, p, P, lo, hi) - L) < 2.5e-4 * (1 + L))


def tame(C):
    """a curve that advances along x: no cusps, moderate weights"""
    C['ControlPoints'] = [tuple(w * y for y in (2.0 * i + 0.4 * q[0] / (1 + abs(q[0])), 1.5 * q[1] / (1 + abs(q[1])), 1.5 * q[2] / (1 + abs(q[2])))) + (w,)
                          for i, P in enumerate(C['ControlPoints']) for w in [0.8 + 0.6 * P[3] / (1 + P[3])] for q in [spec.proj(P)]]
    return C


@contract('curvelen', ['NurbsCurve::ApproximateLength', 'NurbsCurve::Reparametrize', 'Integrator::Simpson'], [{'p': p, 'm': m, 't': t} for p in (2, 3, 4) for m in knot_shapes(p)[:5] for t in TYPES if t != 'Chebyshev' or max(m[1:-1], default=0) < p] + [{'p': 1, 'm': [2, 2], 't': t} for t in TYPES]
          + [{'p': p, 'm': [p + 1, 1, 1, p + 1], 't': t, 'short': f} for p in (2, 3) for f in (0.004, 0.01, 0.03) for t in TYPES], trials=3, native_only=True,
          note='curves advancing along an axis (for the Chebyshev rule: without kinks, where it samples the speed on the wrong side of the knot); against a composite five-point Gauss rule on the speed of the Cox-de Boor definition')
def curvelen(E, c):
    p, t = c['p'], TYPES[c['t']]
    C, kv, _, _ = draw_curve(E, p, c['m'])
    tame(C)
    if 'short' in c:
        # one short knot span, all of it inside the domain
        a, b = kv.v[0], kv.v[-1]
        k = a + 0.4 * (b - a)
        kv = spec.KV(kv.v[:p + 1] + [k, k + c['short'] * (b - a)] + kv.v[p + 3:], kv.r)
        C['KnotVector'] = list(kv.v)
    P = C['ControlPoints']
    lo, hi = kv.v[0], kv.v[-1]
    L = length(kv, p, P, lo, hi)
    rule_fits(E, c['t'], kv, p, P, lo, hi, L)
    E.le('length', abs(E.ok('NurbsCurve::ApproximateLength|(const LN_NurbsCurve &, IntegratorType)', C, t).ret - L), 1e-3 * (1 + L))
    if p > 1:
        f, g = frac(E, 'f', 0.05, 0.4), frac(E, 'g', 0.6, 0.95)
        a, b = lo + f * (hi - lo), lo + g * (hi - lo)
        E.assume(all(abs(x - k) > 1e-3 for x in (a, b) for k in kv.v))
        L = length(kv, p, P, a, b)
        rule_fits(E, c['t'], kv, p, P, a, b, L)
        E.le('length of a piece', abs(E.ok('NurbsCurve::ApproximateLength|double, double', C, a, b, t).ret - L), 1e-3 * (1 + L))


@contract('bylength', ['NurbsCurve::GetParamOnCurve', 'NurbsCurve::GetParamsOnCurve'], [{'p': p, 'm': m, 't': t} for p in (2, 3) for m in knot_shapes(p)[:4] for t in TYPES if t != 'Chebyshev' or max(m[1:-1], default=0) < p] + [{'p': 1, 'm': [2, 2], 't': t} for t in TYPES], trials=2, native_only=True, nat_budget=12)
def bylength(E, c):
    p, t = c['p'], TYPES[c['t']]
    C, kv, _, _ = draw_curve(E, p, c['m'])
    tame(C)
    P = C['ControlPoints']
    lo, hi = kv.v[0], kv.v[-1]
    L = length(kv, p, P, lo, hi)
    slack = 25 if c['t'] == 'Simpson' else 1      # the adaptive rule may stop early by coincidence
    f = frac(E, 'f', 0.05, 0.95)
    q = E.ok('NurbsCurve::GetParamOnCurve|double, IntegratorType', C, f * L, t).ret
    inside(E, 'parameter', q, lo, hi)
    E.le('the piece before the parameter has the length', abs(length(kv, p, P, lo, q) - f * L), 2e-3 * slack * (1 + L))
    E.eq('beyond the end: the end', E.ok('NurbsCurve::GetParamOnCurve|double, IntegratorType', C, L * 1.2 + 1, t).ret, hi)
    n = 2 + int(3 * f)
    step = L / (n + 0.5)
    A = E.ok('NurbsCurve::GetParamsOnCurve', C, step, t).ret
    E.check('as many pieces as fit', len(A) == n or slack > 1 and abs(len(A) - n) < 2)
    for i, x in enumerate(A):
        E.le('equal pieces', abs(length(kv, p, P, lo, x) - step * (i + 1)), 3e-3 * slack * (1 + L) * (i + 1))


def area(ku, pu, kv, pv, N, n=4):
    s = 0.0
    for a, b, i in reaches(ku, pu):
        for x in range(n):
            u0, u1 = a + (b - a) * x / n, a + (b - a) * (x + 1) / n
            for c, d, j in reaches(kv, pv):
                for y in range(n):
                    v0, v1 = c + (d - c) * y / n, c + (d - c) * (y + 1) / n
                    for g, w in G5:
                        for h, z in G5:
                            u, v = (u0 + u1) / 2 + (u1 - u0) / 2 * g, (v0 + v1) / 2 + (v1 - v0) / 2 * h
                            W = [[spec.surface(ku, pu, kv, pv, N, i, u, j, v, k, l) for l in range(2)] for k in range(2)]
                            R = spec.ratders2(W)
                            q = cross(R[1][0], R[0][1])
                            s += w * z * dot(q, q) ** .5 * (u1 - u0) * (v1 - v0) / 4
    return s


@contract('surfarea', ['NurbsSurface::ApproximateArea', 'Integrator::Simpson'], [{'s': s, 't': t} for s in range(4) for t in TYPES], trials=2, native_only=True, nat_budget=20, noconf=True)
def surfarea(E, c):
    from .inv import SHAPES
    pu, mu, pv, mv = SHAPES[c['s']]
    S, ku, kv = patch(E, pu, mu, pv, mv, 'graph')
    S['ControlPoints'] = [[tuple(x / P[3] * w for x in P[:3]) + (w,) for P in r for w in [0.8 + 0.6 * P[3] / (1 + P[3])]] for r in S['ControlPoints']]
    A = area(ku, pu, kv, pv, S['ControlPoints'], 3)
    E.le('area', abs(E.ok('NurbsSurface::ApproximateArea', S, TYPES[c['t']]).ret - A), 2e-3 * (1 + A))


# a curve on which the adaptive rule gives lengths that jump over the wanted one
_JUMP = [(0.1279211239496303, 1.1029885019020438, -0.18867278956802985, 1.1),
         (2.456841344602056, 0.7650989315004141, 0.8385590843301246, 1.0777941862587093),
         (4.869555244079025, -0.019138724153103, -0.13539930729556413, 1.2488495130279245),
         (6.533978214579835, 1.5051391082716088, -1.1976793590204444, 1.035941410267709),
         (7.9450660497432555, -0.5955455663709479, 1.1803339698375461, 1.0251560514041773),
         (9.649534367200523, -1.266074728218169, -1.1904975269718585, 0.9982090686077805),
         (11.45424010986152, 1.2808668718536622, -1.2578913674751648, 0.9520522071822619),
         (15.20386252479132, -1.2111334294479457, -1.1964867879215801, 1.1),
         (19.749054551307353, -0.8552469424142127, 0.5802252370008324, 1.2493495940519994),
         (19.40264113411797, 0.8921072875936085, 1.0143208279560296, 1.063844004989845),
         (25.197222178909414, -0.11936753136317653, -0.389577761004786, 1.2498545160822367),
         (20.96025637273505, -1.180233604214275, 1.1213608395561865, 0.9682782199899399)]


@contract('bylengthjump', ['NurbsCurve::GetParamOnCurve', 'NurbsCurve::GetParamsOnCurve'], [{'step': 10.051239234377448}, {'step': 7.0}], trials=1, native_only=True, noconf=True, nat_budget=12,
          note='one curve: the search for the parameter ends although no parameter has the given approximated length')
def bylengthjump(E, c):
    C = {'Degree': 3, 'KnotVector': [0.0] * 4 + [float(i) for i in range(1, 9)] + [9.0] * 4, 'ControlPoints': list(_JUMP)}
    A = E.ok('NurbsCurve::GetParamsOnCurve', C, c['step'], TYPES['Simpson']).ret
    E.check('as many pieces as fit', len(A) == int(25.128 / c['step']))
