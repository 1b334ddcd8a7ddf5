"""C25: interpolation - parametrisations, knot placement, tangents, global and local interpolation."""
from .base import *
from .geo import one, comb3
import spec
from spec import KV, vadd, vsub, vmul, dot, cross
from fractions import Fraction


def pts_of(E, pat, name='Q'):
    """points named by pattern: equal entries are the same point"""
    d = {k: E.point('%s%d' % (name, k)) for k in sorted(set(pat))}
    if not E.sym:
        ks = sorted(d)
        for i in range(len(ks)):
            for j in range(i):
                E.assume(sum((a - b) ** 2 for a, b in zip(d[ks[i]], d[ks[j]])) > 0.01)
    return [d[k] for k in pat]


def dist(E, a, b):
    if a is b:
        return 0 * one(E)
    s = vsub(a, b)
    return E.sqrt(dot(s, s))


PATS = [[], [0], [0, 1], [0, 1, 2], [0, 1, 2, 3], [0, 1, 2, 3, 4], [0, 0, 0], [0, 0, 1], [0, 1, 1, 2], [0, 1, 0], [0, 0, 0, 0], [0, 1, 2, 2, 2]]


@contract('chordlen', ['Interpolation::GetTotalChordLength', 'Interpolation::GetCentripetalLength'], [{'pat': p} for p in PATS], summaries='gpz', trials=4)
def chordlen(E, c):
    Q = pts_of(E, c['pat'])
    d = [dist(E, a, b) for a, b in zip(Q, Q[1:])]
    z = 0 * one(E)
    E.eq('total chord length', E.ok('Interpolation::GetTotalChordLength', Q).ret, sum(d, z))
    E.eq('total centripetal length', E.ok('Interpolation::GetCentripetalLength', Q).ret, sum((E.sqrt(x) if not (E.sym and not hasattr(x, 'op')) else x for x in d), z))


def chord_spec(E, Q, cent=False):
    n = len(Q)
    o = one(E)
    if n < 2:
        return [0 * o] * n
    d = [dist(E, a, b) for a, b in zip(Q, Q[1:])]
    if cent:
        d = [E.sqrt(x) if hasattr(x, 'op') or not E.sym else x for x in d]
    if all(a is b for a, b in zip(Q, Q[1:])):
        return [o * i / (n - 1) for i in range(n)]
    tot = sum(d, 0 * o)
    out, acc = [0 * o], 0 * o
    for x in d[:-1]:
        acc = acc + x
        out.append(acc / tot)
    return out + [o]


@contract('chordpar', ['Interpolation::GetChordParameterization', 'Interpolation::GetCentripetalParameterization'], [{'pat': p, 'cent': b} for p in PATS for b in (False, True)], summaries='gpz', trials=4)
def chordpar(E, c):
    Q = pts_of(E, c['pat'])
    if len(c['pat']) == 2 and c['pat'][0] == c['pat'][1]:
        return
    u = E.ok('Interpolation::%sParameterization' % ('GetCentripetal' if c['cent'] else 'GetChord'), Q).ret
    want = chord_spec(E, Q, c['cent'])
    E.eq('parameters proportional to the accumulated chord lengths', u, want)
    for i in range(len(u) - 1):
        if c['pat'][i] != c['pat'][i + 1]:
            if E.sym:
                d = [dist(E, a, b) for a, b in zip(Q, Q[1:])]
                if c['cent']:
                    d = [E.sqrt(x) if hasattr(x, 'op') else x for x in d]
                for x in d:
                    if hasattr(x, 'op'):
                        E.assume(E.gt0(x))
                st = d[i] / sum(d, 0 * one(E))
                E.eq('parameter step', u[i + 1] - u[i], st)
                E.lt('parameters increase', 0, st)
            else:
                E.lt('parameters increase', u[i], u[i + 1])
        else:
            E.eq('repeated point, repeated parameter', u[i], u[i + 1] if any(a != b for a, b in zip(c['pat'], c['pat'][1:])) else u[i])


@contract('avgknots', ['Interpolation::AverageKnotVector'], lambda tier, lits: [{'p': p, 'n': n} for p in range(1, 6 if tier == 'quick' else 8) for n in range(p, p + (5 if tier == 'quick' else 8))], trials=3)
def avgknots(E, c):
    p, n = c['p'], c['n']
    o = one(E)
    u = E.chain([0] + ['u%d' % i for i in range(1, n)] + [1])
    kv = E.ok('Interpolation::AverageKnotVector', p, u).ret
    want = [0 * o] * (p + 1) + [sum(u[j:j + p], 0 * o) / p for j in range(1, n - p + 1)] + [o] * (p + 1)
    E.eq('averaged clamped knots', kv, want)


@contract('fitknots', ['Interpolation::ComputeKnotVector'], lambda tier, lits: [{'p': p, 'n': n, 'm': m} for p in range(1, 5) for n in range(p + 1, p + 4) for m in (n - 1, n, n + 1, n + 3, 2 * n + 1)], trials=3)
def fitknots(E, c):
    p, n, m = c['p'], c['n'], c['m']          # n control points, m + 1 parameters
    o = one(E)
    u = E.chain([0] + ['u%d' % i for i in range(1, m)] + [1])
    kv = E.ok('Interpolation::ComputeKnotVector', p, n, u).ret
    d = Fraction(m + 1, n - p)
    want = [0 * o] * (p + 1)
    for j in range(1, n - p):
        i = int(j * d)
        a = j * d - i
        a = a if E.sym else float(a)
        want.append((1 - a) * u[i - 1] + a * u[i])
    want += [o] * (p + 1)
    E.eq('clamped knots with a parameter in every span', kv, want)
    if m + 1 >= n:
        inner = kv[p:n + 1]
        if not E.sym:
            for a, b in zip(inner, inner[1:]):
                E.check('every span holds a parameter', any(a - 1e-9 <= x <= b + 1e-9 for x in u))


def grid(E, pat):
    ks = sorted({x for r in pat for x in r})
    f = pts_of(E, ks)
    d = dict(zip(ks, f))
    return [[d[x] for x in r] for r in pat]


def mesh_spec(E, G):
    n, m = len(G), len(G[0])
    o = one(E)

    def avg(lines, k):
        ps = [chord_spec(E, L) for L in lines if not all(a is b for a, b in zip(L, L[1:]))]
        if not ps:
            return None
        return [0 * o] + [sum((p[i] for p in ps[1:]), ps[0][i]) / len(ps) for i in range(1, k - 1)] + [o]
    return avg([[G[k][l] for k in range(n)] for l in range(m)], n), avg(G, m)


MESH = [[[0, 1], [2, 3]], [[0, 1, 2], [3, 4, 5]], [[0, 1], [2, 3], [4, 5]], [[0, 1, 2], [3, 4, 5], [6, 7, 8]], [[0, 1, 2], [0, 3, 4], [0, 5, 6]], [[0, 0, 0], [1, 2, 3], [4, 5, 6]], [[0, 0], [0, 0]], [[0, 1], [0, 1], [0, 1]], [[0, 0, 0, 0], [1, 2, 3, 4]]]


@contract('meshpar', ['Interpolation::GetSurfaceMeshParameterization'], [{'g': g} for g in MESH], summaries='gpz', trials=4)
def meshpar(E, c):
    G = grid(E, c['g'])
    r = E.ok('Interpolation::GetSurfaceMeshParameterization', G, [], [])
    u, v = mesh_spec(E, G)
    E.check('parametrised unless a direction is degenerate everywhere', r.ret == (u is not None and v is not None))
    if r.ret:
        E.eq('u parameters are the averaged chord parameters', r.out[0], u)
        E.eq('v parameters are the averaged chord parameters', r.out[1], v)


# ---------------------------------------------------------------- tangents
@contract('bessel', ['Interpolation::ComputeTangent'], [{'pat': p} for p in ([], [0], [0, 1], [0, 1, 2], [0, 1, 2, 3], [0, 1, 2, 3, 4], [0, 0, 1], [0, 1, 1], [0, 0, 1, 2], [0, 1, 1, 2, 3], [0, 1, 1, 1, 2])], summaries='interp', trials=4, note='three-point scheme (NURBS Book 9.28-9.32)')
def bessel(E, c):
    pat = c['pat']
    Q = pts_of(E, pat)
    n = len(Q)
    T = E.ok('Interpolation::ComputeTangent|(const vector<XYZ> &)', Q).ret
    E.check('one tangent per point', len(T) == n)
    o = one(E)
    z = (0 * o,) * 3
    if n < 2:
        want = [z] * n
    elif n == 2:
        want = [vsub(Q[1], Q[0])] * 2
    else:
        u = E.ok('Interpolation::GetChordParameterization', Q).ret
        eqp = [pat[i] == pat[i + 1] for i in range(n - 1)]
        du = [None if eqp[i] else u[i + 1] - u[i] for i in range(n - 1)]
        dd = [None if eqp[i] else vmul(vsub(Q[i + 1], Q[i]), 1 / du[i]) for i in range(n - 1)]
        want = [None] * n
        for i in range(1, n - 1):
            a, b = dd[i - 1], dd[i]
            if a is None and b is None:
                want[i] = z
            elif a is None or b is None:
                want[i] = a or b
            else:
                al = du[i - 1] / (du[i - 1] + du[i])
                want[i] = vadd(vmul(a, 1 - al), vmul(b, al))
        want[0] = vsub(vmul(dd[0], 2), want[1]) if dd[0] else want[1]
        want[-1] = vsub(vmul(dd[-1], 2), want[-2]) if dd[-1] else want[-2]
    for i in range(n):
        E.eq('three-point tangent %d' % i, T[i], want[i], 1e-5)


@contract('tangent5', ['Interpolation::ComputeTangent'], [{'n': n} for n in (1, 2, 4, 5, 6, 7)], summaries='gpz', trials=6, budget=80, note='five-point scheme (NURBS Book 9.29-9.33)')
def tangent5(E, c):
    n = c['n']
    Q = pts_of(E, list(range(n)))
    r = E.ok('Interpolation::ComputeTangent|vector<XYZ> &, vector<XYZ> &', Q, [])
    E.check('refused below five points', r.ret == (n >= 5))
    if n < 5:
        return
    q = {k: vsub(Q[k], Q[k - 1]) for k in range(1, n)}
    q[0] = vsub(vmul(q[1], 2), q[2])
    q[-1] = vsub(vmul(q[0], 2), q[1])
    q[n] = vsub(vmul(q[n - 1], 2), q[n - 2])
    q[n + 1] = vsub(vmul(q[n], 2), q[n - 1])
    E.check('one tangent per point', len(r.out[0]) == n)

    def L(a):
        return E.sqrt(dot(a, a))
    for k in range(n):
        a, b = L(cross(q[k - 1], q[k])), L(cross(q[k + 1], q[k + 2]))
        if not E.sym:
            E.assume(a + b > 1e-3)
        al = a / (a + b)
        V = vadd(vmul(q[k], 1 - al), vmul(q[k + 1], al))
        if not E.sym:
            E.assume(dot(V, V) > 1e-3)
        E.eq('five-point unit tangent %d' % k, r.out[0][k], vmul(V, 1 / L(V)), 1e-5)


@contract('tangentline', ['Interpolation::ComputeTangent'], [{'n': n} for n in (5, 6, 8)], trials=6, native_only=True, note='collinear data')
def tangentline(E, c):
    A, d = E.point('A'), E.point('d')
    E.assume(dot(d, d) > 0.05)
    t = E.chain(['t%d' % i for i in range(c['n'])])
    Q = [vadd(A, vmul(d, x)) for x in t]
    for a, b in ((0, 1), (-1, -2)):
        w = abs(2 * (t[a] - t[b]) - (t[b] - t[b + (1 if b > 0 else -1)]))
        E.assume(w > 1e-2 * abs(t[-1] - t[0]))
    r = E.ok('Interpolation::ComputeTangent|vector<XYZ> &, vector<XYZ> &', Q, [])
    for k, T in enumerate(r.out[0]):
        E.le('tangent of collinear points is parallel to the line', dot(cross(T, d), cross(T, d)), 1e-8)
        E.eq('tangent of collinear points is a unit vector', dot(T, T), 1.0, 1e-5)


# ---------------------------------------------------------------- linear systems
@contract('solvelin', ['MathUtils::SolveLinearSystem'], [{'n': n, 'k': k} for n in (1, 2, 3, 5) for k in (1, 3)], native_only=True, trials=6, note='Eigen back end')
def solvelin(E, c):
    n, k = c['n'], c['k']
    A = [[E.real('a%d_%d' % (i, j)) + (5.0 if i == j else 0.0) * (1 if E.real('s%d' % i) > -1 else -1) for j in range(n)] for i in range(n)]
    for i in range(n):
        E.assume(abs(A[i][i]) > 0.2 + sum(abs(A[i][j]) for j in range(n) if j != i))
    perm = sorted(range(n), key=lambda i: E.real('p%d' % i))
    A = [A[i] for i in perm]
    B = [[E.real('b%d_%d' % (i, j)) for j in range(k)] for i in range(n)]
    X = E.ok('MathUtils::SolveLinearSystem', A, B).ret
    E.check('solution size', len(X) == n and all(len(r) == k for r in X))
    for i in range(n):
        for j in range(k):
            E.eq('A X = B', sum(A[i][l] * X[l][j] for l in range(n)), B[i][j])


# ---------------------------------------------------------------- global interpolation
def check_curve(E, name, C, p, n, lo=0, hi=1):
    o = one(E)
    kv = C['KnotVector']
    E.check(name + ': degree', C['Degree'] == p)
    if len(C['ControlPoints']) != n or len(kv) != n + p + 1:
        E.fail(name + ': sizes', '%d control points, %d knots' % (len(C['ControlPoints']), len(kv)))
    E.eq(name + ': clamped at the start', kv[:p + 1], [lo * o] * (p + 1))
    E.eq(name + ': clamped at the end', kv[-p - 1:], [hi * o] * (p + 1))


@contract('ginterp', ['NurbsCurve::GlobalInterpolation'], lambda tier, lits: [{'p': p, 'n': n, 'k': k} for p in range(1, 5) for n in range(p + 1, p + (4 if tier == 'quick' else 6)) for k in ('par', 'chord')], summaries='interp', budget=60, trials=4)
def ginterp(E, c):
    p, n = c['p'], c['n']
    Q = pts_of(E, list(range(n)))
    if c['k'] == 'par':
        u = E.chain([0] + ['u%d' % i for i in range(1, n - 1)] + [1])
        C = E.ok('NurbsCurve::GlobalInterpolation|LN_NurbsCurve &, const vector<double> &', p, Q, None, u).out[0]
    else:
        C = E.ok('NurbsCurve::GlobalInterpolation|LN_NurbsCurve &, const vector<double> &', p, Q, None, []).out[0]
        u = E.ok('Interpolation::GetChordParameterization', Q).ret
    check_curve(E, 'global interpolation', C, p, n)
    for i in range(n):
        E.eq('interpolating curve passes through point %d' % i, E.ok('NurbsCurve::GetPointOnCurve', C, u[i]).ret, Q[i], 1e-5)


@contract('ginterptan', ['NurbsCurve::GlobalInterpolation'], lambda tier, lits: [{'p': p, 'n': n} for p in range(2, 5) for n in range(p + 1, p + (3 if tier == 'quick' else 5))], summaries='interp', budget=90, trials=4)
def ginterptan(E, c):
    p, n = c['p'], c['n']
    Q = pts_of(E, list(range(n)))
    T = [E.point('T%d' % i) for i in range(n)]
    f = E.pos('f')
    if E.sym:
        E.assume(E.gt0(f - Fraction(4, 10 ** 6) * (1 + f)))
    C = E.ok('NurbsCurve::GlobalInterpolation|const vector<XYZ> &, double', p, Q, T, f, None).out[0]
    u = E.ok('Interpolation::GetChordParameterization', Q).ret
    check_curve(E, 'interpolation with tangents', C, p, 2 * n)
    for i in range(n):
        D = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', C, 1, u[i]).ret
        E.eq('passes through point %d' % i, D[0], Q[i], 1e-4)
        E.eq('has the given derivative at point %d' % i, D[1], vmul(T[i], f), 1e-4)


@contract('clocal', ['NurbsCurve::CubicLocalInterpolation'], [{'n': n} for n in (1, 2, 4, 5, 6, 7)], summaries='local', trials=6)
def clocal(E, c):
    n = c['n']
    Q = pts_of(E, list(range(n)))
    r = E.ok('NurbsCurve::CubicLocalInterpolation', Q, None)
    E.check('needs one or at least five points', r.ret == (n == 1 or n >= 5))
    if not r.ret or n == 1:
        return
    C = r.out[0]
    T = E.ok('Interpolation::ComputeTangent|vector<XYZ> &, vector<XYZ> &', Q, []).out[0]
    if not E.sym:
        for t in T:
            E.assume(all(x == x for x in t))
    check_curve(E, 'local cubic interpolation', C, 3, 3 * n - 2)
    kn = C['KnotVector']
    for i in range(1, n - 1):
        E.eq('junction knots of point %d' % i, [kn[3 * i + 2], kn[3 * i + 3]], [kn[3 * i + 1]] * 2)
        E.lt('knots increase at point %d' % i, kn[3 * i - 1], kn[3 * i + 1])
    E.lt('knots increase to the end', kn[3 * n - 4], kn[3 * n - 2])
    KT = KV(kn, [0] * 4 + [k for k in range(1, n - 1) for _ in range(3)] + [n - 1] * 4)
    for i in range(n):
        u = kn[3 * i + 1]
        sides = ([3 * i] if i > 0 else []) + ([3 * i + 3] if i < n - 1 else [])
        D = []
        for s in sides:
            E.eq('passes through point %d' % i, spec.curve(KT, 3, C['ControlPoints'], s, u), Q[i] + (one(E),), 1e-5)
            D.append(spec.curve(KT, 3, C['ControlPoints'], s, u, 1)[:3])
            E.eq('runs along the tangent at point %d' % i, cross(D[-1], T[i]), (0 * one(E),) * 3, 1e-4)
            if not E.sym:
                E.assume(dot(D[-1], D[-1]) > 1e-6)
                E.lt('runs forward along the tangent at point %d' % i, 0, dot(D[-1], T[i]))
        if len(D) == 2:
            E.eq('derivative continuous at point %d' % i, D[0], D[1], 1e-4)


@contract('sginterp', ['NurbsSurface::GlobalInterpolation'], [{'p': p, 'q': q, 'n': n, 'm': m} for p, q, n, m in ((1, 1, 2, 2), (1, 1, 2, 3), (1, 2, 3, 3), (2, 1, 3, 2), (2, 2, 3, 3), (2, 2, 3, 4), (2, 1, 4, 2), (1, 3, 2, 4), (3, 2, 4, 3))], summaries='interp', budget=120, trials=4)
def sginterp(E, c):
    p, q, n, m = c['p'], c['q'], c['n'], c['m']
    G = grid(E, [[i * m + j for j in range(m)] for i in range(n)])
    r = E.ok('NurbsSurface::GlobalInterpolation', G, p, q, None).out[0]
    g = E.ok('Interpolation::GetSurfaceMeshParameterization', G, [], [])
    u, v = g.out
    E.check('degrees', r['DegreeU'] == p and r['DegreeV'] == q)
    P = r['ControlPoints']
    if len(P) != n or any(len(x) != m for x in P) or len(r['KnotVectorU']) != n + p + 1 or len(r['KnotVectorV']) != m + q + 1:
        E.fail('net and knot vector sizes')
    for i in range(n):
        for j in range(m):
            E.eq('interpolating surface passes through point %d,%d' % (i, j), E.ok('NurbsSurface::GetPointOnSurface', r, (u[i], v[j])).ret, G[i][j], 1e-4)


@contract('bicubic', ['NurbsSurface::BicubicLocalInterpolation'], [{'n': n, 'm': m} for n, m in ((3, 3), (3, 4), (4, 3), (5, 3), (3, 6), (2, 2), (2, 4))], summaries='local', trials=6, budget=60)
def bicubic(E, c):
    n, m = c['n'], c['m']
    if E.sym:
        G = [[E.point('Q%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
    else:
        G = [[(i + 0.3 * E.real('x%d_%d' % (i, j), -1, 1), j + 0.3 * E.real('y%d_%d' % (i, j), -1, 1), E.real('z%d_%d' % (i, j))) for j in range(m)] for i in range(n)]
    r = E.ok('NurbsSurface::BicubicLocalInterpolation', G, None)
    E.check('accepted', r.ret is True)
    S = r.out[0]
    E.check('bicubic', S['DegreeU'] == 3 and S['DegreeV'] == 3)
    P = S['ControlPoints']
    ks = []
    for nm, k, cnt in (('u', S['KnotVectorU'], n), ('v', S['KnotVectorV'], m)):
        if len(k) != 2 * cnt + 4:
            E.fail(nm + ' knot count', str(len(k)))
        o = one(E)
        E.eq(nm + ' knots clamped', k[:4] + k[-4:], [0 * o] * 4 + [o] * 4)
        for i in range(1, cnt - 1):
            E.eq('%s knot %d double' % (nm, i), k[2 * i + 3], k[2 * i + 2])
            E.lt('%s knots increase' % nm, k[2 * i + 1], k[2 * i + 2])
        E.lt('%s knots increase to the end' % nm, k[2 * cnt - 1], k[2 * cnt])
        ks.append(KV(k, [0] * 4 + [x for x in range(1, cnt - 1) for _ in range(2)] + [cnt - 1] * 4))
    if len(P) != 2 * n or any(len(x) != 2 * m for x in P):
        E.fail('net size')
    KU, KW = ks
    sp = lambda i, cnt: ([2 * i + 1] if i > 0 else []) + ([2 * i + 3] if i < cnt - 1 else [])
    for i in range(n):
        for j in range(m):
            u, v = KU.v[2 * i + 2], KW.v[2 * j + 2]
            for a in sp(i, n):
                for b in sp(j, m):
                    E.eq('passes through point %d,%d' % (i, j), spec.surface(KU, 3, KW, 3, P, a, u, b, v)[:3], G[i][j], 1e-5)
    for i in range(1, n - 1):
        for b in KW.spans(3):
            v = E.interior('v%d' % b, KW.v[b], KW.v[b + 1])
            L, R = (spec.surface(KU, 3, KW, 3, P, a, KU.v[2 * i + 2], b, v, 1, 0)[:3] for a in sp(i, n))
            E.eq('u derivative continuous across row %d' % i, L, R, 1e-4)


@contract('quadweight', ['Interpolation::ComputerWeightForRationalQuadraticInterpolation'], [{'k': k} for k in ('gen', 'iso', 'line')], summaries='gpz', trials=10, budget=60)
def quadweight(E, c):
    S, D = E.point('S'), E.point('D')
    k = c['k']
    o = one(E)
    if k == 'gen':
        Eo = E.point('E')
        R = D
    elif k == 'iso':
        w = E.point('w')
        h = cross(D, w)                       # apex over the middle of the chord
        Eo = vadd(S, D)
        R = vadd(vadd(S, vmul(D, o / 2)), h)
    else:
        a, b = E.pos('a'), E.pos('b')
        R, Eo = vadd(S, vmul(D, a)), vadd(S, vmul(D, a + b))
    L = lambda p, q: E.sqrt(dot(vsub(p, q), vsub(p, q)))
    if not E.sym:
        n = cross(vsub(R, S), vsub(Eo, S))
        E.assume(k == 'line' or dot(n, n) > 0.05)
        E.assume(L(R, S) > 0.1 and L(Eo, S) > 0.1 and L(R, Eo) > 0.1)
        if k == 'gen':
            E.assume(abs(L(R, S) - L(R, Eo)) > 0.01)
    r = E.ok('Interpolation::ComputerWeightForRationalQuadraticInterpolation', S, R, Eo, 0.0 if not E.sym else 0 * o)
    E.check('accepted', r.ret is True)
    w = r.out[0]
    if k == 'line':
        E.eq('weight one for collinear points', w, o)
    else:
        r1, r2 = L(S, Eo) / (2 * L(S, R)), L(S, Eo) / (2 * L(Eo, R))
        s = (r1 / (1 + r1) + r2 / (1 + r2)) / 2
        E.eq('weight of the mean bisector intersection (a circular arc in the isosceles case)', w, s / (1 - s), 1e-5)
