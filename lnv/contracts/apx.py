"""C33 approximation."""
from fractions import Fraction
from .base import *
from .geo import one, vsub, vadd, vmul, dot, cross, generic
from .itp import pts_of
from spec import KV
import spec


@contract('solveband', ['MathUtils::SolveLinearSystemBanded'], [{'n': n, 'h': h, 's': s} for n in (1, 2, 3, 5) for h in (0, 1, 2) for s in (1.0, 1e-6, 1e5)], native_only=True, trials=2, note='Eigen back end')
def solveband(E, c):
    n, h = c['n'], c['h']
    w = 2 * h + 1
    M = [[E.real('a%d_%d' % (i, j)) * 0.3 + (3.0 if j == h else 0.0) for j in range(w)] for i in range(n)]
    E.assume(all(sum(abs(x) for x in r) < 2 * abs(r[h]) - 0.2 for r in M))
    B = [[E.real('b%d_%d' % (i, j)) for j in range(3)] for i in range(n)]
    s = c.get('s', 1.0)
    r = E.ok('MathUtils::SolveLinearSystemBanded', n, [[x * s for x in row] for row in M], w, [[x * s for x in row] for row in B], [[0.0] * 3 for _ in range(n)])
    E.check('solved', bool(r.ret))
    X = r.out[0]
    for i in range(n):
        for j in range(3):
            E.eq('A X = B', sum(M[i][k] * X[i - h + k][j] for k in range(w) if 0 <= i - h + k < n), B[i][j])


def _params(E, Q):
    """the chord parameters (a callee with a contract of its own)"""
    return E.ok('Interpolation::GetChordParameterization', Q).ret


def _span(E, kv, p, u):
    n = len(kv) - p - 2
    i = p
    for k in range(p, n + 1):
        if E.choose(E_le(E, kv[k], u)) and not (k > p and E_same(kv[k], kv[k - 1]) and False):
            i = k
    return i


def E_le(E, a, b):
    if E.sym:
        from terms import rel, lift
        return rel('le', lift(a), lift(b))
    return a <= b + 1e-12


def E_same(a, b):
    return a is b


@contract('lsq', ['NurbsCurve::LeastSquaresApproximation'], lambda tier, lits: [{'p': p, 'm': m, 'n': n} for p in (1, 2, 3) for n in (p + 2, p + 3) for m in ((n + 1, n + 3) if tier == 'quick' else (n + 1, n + 2, n + 3, n + 5))], trials=4, summaries='linear', budget=60)
def lsq(E, c):
    p, m, n = c['p'], c['m'], c['n']
    Q = pts_of(E, range(m))
    R = E.ok('NurbsCurve::LeastSquaresApproximation', p, Q, n, None)
    u = _params(E, Q)
    E.check('solved', bool(R.ret))
    C = R.out[0]
    kv, P = C['KnotVector'], C['ControlPoints']
    E.check('sizes', C['Degree'] == p and len(P) == n and len(kv) == n + p + 1)
    for i in range(p + 1):
        E.eq('starts at 0', kv[i], 0)
        E.eq('ends at 1', kv[n + i], 1)
    for i in range(p, n):
        E.lt('knots ascend', kv[i], kv[i + 1])
    for x in P:
        E.eq('weights are one', x[3], 1)
    E.eq('first point', P[0][:3], Q[0])
    E.eq('last point', P[-1][:3], Q[-1])
    K = KV(kv, [0] * (p + 1) + [100 * i for i in range(1, n - p)] + [100 * (n - p)] * (p + 1))
    g = [(0, 0, 0)] * n
    for k in range(1, m - 1):
        s = _span(E, kv, p, u[k])
        N = spec.N(K, p, s, u[k])
        e = vsub(Q[k], spec.lin(N, [x[:3] for x in P]))
        for i in range(s - p, s + 1):
            g[i] = vadd(g[i], vmul(e, N[i]))
    for i in range(1, n - 1):
        E.eq('stationary: the squared error has zero gradient in control point %d' % i, g[i], (0, 0, 0), 1e-6)


@contract('wlsq', ['NurbsCurve::WeightedAndContrainedLeastSquaresApproximation'], [{'p': p, 'm': m, 'n': n, 'k': k} for p, m, n in ((1, 4, 3), (2, 5, 4), (2, 6, 4), (3, 6, 4), (3, 7, 5)) for k in ('free', 'ends', 'inner', 'tan', 'tancon', 'zero')], trials=4, summaries='linear', budget=90)
def wlsq(E, c):
    p, m, n, k = c['p'], c['m'], c['n'], c['k']
    Q = pts_of(E, range(m))
    o = one(E)
    w = [E.pos('w%d' % i) for i in range(m)]
    T, ti, tw = [], [], []
    if k == 'ends':
        w[0] = w[-1] = -o
    if k == 'inner':
        w[m // 2] = -o
    if k == 'zero':
        w[1] = o * 0
        E.assume(m - 1 >= n)
    if k in ('tan', 'tancon'):
        T = [E.point('T0'), E.point('T1')]
        ti = [m - 2, 0]
        tw = [E.pos('v0'), E.pos('v1') if k == 'tan' else -o]
    R = E.ok('NurbsCurve::WeightedAndContrainedLeastSquaresApproximation', p, Q, w, T, ti, tw, n, None)
    u = _params(E, Q)
    E.check('solved', bool(R.ret))
    C = R.out[0]
    kv, P = C['KnotVector'], C['ControlPoints']
    E.check('sizes', C['Degree'] == p and len(P) == n and len(kv) == n + p + 1)
    for i in range(p + 1):
        E.eq('starts at 0', kv[i], 0)
        E.eq('ends at 1', kv[n + i], 1)
    for x in P:
        E.eq('weights are one', x[3], 1)
    K = KV(kv, [0] * (p + 1) + [100 * i for i in range(1, n - p)] + [100 * (n - p)] * (p + 1))
    P3 = [x[:3] for x in P]
    rows = [(w[i], u[i], 0, Q[i]) for i in range(m)] + [(tw[j], u[ti[j]], 1, T[j]) for j in range(len(T))]
    neg = [i for i in range(m) if k in ('ends', 'inner') and w[i] is w[0 if k == 'ends' else m // 2] and not _ispos(E, w[i])]
    g = [(0, 0, 0)] * n
    con = []
    for j, (wt, t, d, q) in enumerate(rows):
        if k == 'zero' and j == 1:
            continue
        s = _span(E, kv, p, t)
        N = spec.dN(K, p, s, t, d) if d else spec.N(K, p, s, t)
        e = vsub(spec.lin(N, P3), q)
        if not _ispos(E, wt):
            E.eq('constraint met exactly', e, (0, 0, 0), 1e-6)
            con.append({i: N[i] for i in range(s - p, s + 1)})
        else:
            for i in range(s - p, s + 1):
                g[i] = vadd(g[i], vmul(e, N[i] * wt))
    if not con:
        for i in range(n):
            E.eq('stationary: the weighted squared error has zero gradient in control point %d' % i, g[i], (0, 0, 0), 1e-5)
    elif k == 'ends':
        for i in range(1, n - 1):
            E.eq('stationary in the free control point %d' % i, g[i], (0, 0, 0), 1e-5)
    else:
        M = con[0]
        for i in range(n):
            for j in range(i):
                for x in range(3):
                    E.eq('gradient is a multiple of the constraint', g[i][x] * M.get(j, 0 * o), g[j][x] * M.get(i, 0 * o), 1e-5)


def _ispos(E, w):
    if E.sym:
        from terms import isc, lift
        w = lift(w)
        return not isc(w) or w.a > 0
    return w > 0


@contract('rkbound', ['NurbsCurve::ComputerRemoveKnotErrorBound'], [{'p': p, 'm': m, 's': s, 'k': k} for p in (1, 2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1]) for s in range(len(m) - 1) for k in range(1, p + 1)], trials=3, summaries='gp', note='knots inserted before: the bound is zero')
def rkbound(E, c):
    p = c['p']
    C, kv, vals, _ = draw_curve(E, p, c['m'], [('span', c['s'])])
    i = kv.spans(p)[c['s']]
    R = E.ok('NurbsCurve::InsertKnot', C, vals[0], c['k'], None).out[0]
    b = E.ok('NurbsCurve::ComputerRemoveKnotErrorBound', R, i + c['k']).ret
    E.eq('a knot that can be removed exactly has error bound zero', b, 0, 1e-6)


def _rkj(p, ms):
    return [{'p': p, 'm': m, 'k': k} for m in ms for k in range(1, len(m) - 1)]


@contract('rkjump', ['NurbsCurve::ComputerRemoveKnotErrorBound'], [c for p in (1, 2, 3, 4) for c in _rkj(p, [[p + 1, s, p + 1] for s in range(1, p + 1)] + [[p + 1, 1, 1, p + 1], [p + 1, p, 1, p + 1]])], trials=3, summaries='gp',
          big=[c for p in (4, 5, 6) for c in _rkj(p, [[p + 1, s, 1, p + 1] for s in range(1, p + 1)] + [[p + 1, 2, s, 2, p + 1] for s in (2, p - 1, p)])], note='the bound measures the jump of the first derivative that may jump at the knot, in every curve on these knots by the same factor')
def rkjump(E, c):
    p, k = c['p'], c['k']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    D = dict(C, ControlPoints=E.wpoints('Q', len(C['ControlPoints'])))
    s = c['m'][k]
    i = sum(c['m'][:k + 1]) - 1
    out = []
    for X in (C, D):
        b = E.ok('NurbsCurve::ComputerRemoveKnotErrorBound', X, i).ret
        j = spec.vsub(spec.curve(kv, p, X['ControlPoints'], i, kv.v[i], p - s + 1), spec.curve(kv, p, X['ControlPoints'], i - s, kv.v[i], p - s + 1))
        out.append((b, sum(x * x for x in j)))
    (a, x), (b, y) = out
    if not E.sym:
        E.assume(x > 1e-6 and y > 1e-6)
        E.eq('the bound is proportional to the jump at the knot', a / b, (x / y) ** .5, 1e-4)
        E.check('positive where the derivative jumps', a > 0)
    else:
        E.eq('the bound is proportional to the jump at the knot', a * a * y, b * b * x)


@contract('sapprox', ['NurbsSurface::GlobalApproximation'], [{'k': k, 'r': r, 'c': cc, 'pu': pu, 'pv': pv, 'nr': nr, 'nc': nc} for k in ('translational', 'general') for r, cc, pu, pv, nr, nc in ((6, 7, 2, 1, 3, 5), (8, 6, 3, 2, 4, 5), (6, 6, 1, 1, 4, 4))], trials=3, native_only=True)
def sapprox(E, c):
    A, B = pts_of(E, range(c['r']), 'A'), pts_of(E, range(c['c']), 'B')
    Q = [[vadd(a, b) for b in B] for a in A]
    if c['k'] == 'general':
        Q = [[vadd(q, vmul(E.point('d%d_%d' % (i, j)), 0.05)) for j, q in enumerate(r)] for i, r in enumerate(Q)]
    R = E.ok('NurbsSurface::GlobalApproximation', Q, c['pu'], c['pv'], c['nr'], c['nc'], None)
    E.check('solved', bool(R.ret))
    S = R.out[0]
    P = S['ControlPoints']
    E.check('well formed', len(S['KnotVectorU']) == len(P) + c['pu'] + 1 and all(len(S['KnotVectorV']) == len(r) + c['pv'] + 1 for r in P) and S['DegreeU'] == c['pu'] and S['DegreeV'] == c['pv'])
    E.check('as many control points as asked for', len(P) == c['nc'] and len(P[0]) == c['nr'])
    for u in (0, -1):
        for v in (0, -1):
            E.eq('interpolates the corners', P[u][v][:3], Q[v][u])
    for r in P:
        for q in r:
            E.eq('weights are one', q[3], 1.0)
    if c['k'] == 'translational':
        a = E.ok('NurbsCurve::LeastSquaresApproximation', c['pv'], A, c['nr'], None).out[0]
        b = E.ok('NurbsCurve::LeastSquaresApproximation', c['pu'], B, c['nc'], None).out[0]
        E.eq('u knots of the row curves', S['KnotVectorU'], b['KnotVector'])
        E.eq('v knots of the column curves', S['KnotVectorV'], a['KnotVector'])
        for i in range(c['nc']):
            for j in range(c['nr']):
                E.eq('sum of the two approximations', P[i][j][:3], vadd(a['ControlPoints'][j][:3], b['ControlPoints'][i][:3]), 1e-5)


@contract('fitconic', ['NurbsCurve::FitWithConic', 'NurbsCurve::CreateOneConicArc'], [{'n': n, 's': s} for n in (1, 2, 3) for s in (0, 1)] + [{'n': n, 's': s, 'k': k} for k in ('line', 'far', 'skew', 'back', 'mixed') for n, s in ((1, 0), (2, 1))], trials=6, native_only=True, note='points taken from a conic arc; collinear data; points off every such conic, and tangents that do not meet, are refused')
def fitconic(E, c):
    A, R, B = E.point('A'), E.point('R'), E.point('B')
    cr = cross(vsub(R, A), vsub(B, A))
    E.assume(dot(cr, cr) > 0.3)
    w = E.pos('w', 0.4, 2.5)
    E.assume(0.3 < w < 4)
    K = KV([0.0, 0.0, 0.0, 1.0, 1.0, 1.0], [0, 0, 0, 100, 100, 100])
    P = [A + (1.0,), vmul(R, w) + (w,), B + (1.0,)]
    Q = [spec.proj(spec.curve(K, 2, P, 2, (i + 1.0) / (c['n'] + 1))) for i in range(c['n'])]
    k = c.get('k')
    T, U = vsub(R, A), vsub(B, R)
    if k == 'line':
        Q = [vadd(A, vmul(vsub(B, A), (i + 1.0) / (c['n'] + 1))) for i in range(c['n'])]
        T, U = vmul(vsub(B, A), w), vmul(vsub(B, A), 1.5)
    elif k == 'far':
        Q[0] = vadd(Q[0], vmul(cr, 0.2))            # out of the plane of the end tangents
    elif k == 'mixed':                              # one point on each of two very different conics
        Q = [spec.proj(spec.curve(K, 2, [A + (1.0,), vmul(R, x) + (x,), B + (1.0,)], 2, 0.5)) for x in (0.3, 2.5)]
    elif k == 'skew':
        U = vadd(U, cr)
    elif k == 'back':
        T = vmul(T, -1)                             # the tangent rays meet behind the first point
    pts = [E.point('x')] * c['s'] + [A] + Q + [B] + [E.point('y')] * c['s']
    if k:
        r = E.ok('NurbsCurve::FitWithConic', pts, c['s'], c['s'] + len(Q) + 1, T, U, 1e-3, [])
        if k == 'line':
            E.check('collinear data fitted by the segment', bool(r.ret) and len(r.out[0]) == 1)
            E.eq('middle control point', r.out[0][0], vmul(vadd(A, B), 0.5) + (1.0,), 1e-5)
        else:
            E.check('refused', not r.ret)
        return
    r = E.ok('NurbsCurve::FitWithConic', pts, c['s'], c['s'] + c['n'] + 1, vsub(R, A), vsub(B, R), 1e-3, [])
    E.check('fitted', bool(r.ret))
    M = r.out[0]
    E.check('one middle control point', len(M) == 1)
    E.eq('weight of the conic', M[0][3], w, 1e-4)
    E.eq('apex of the conic', spec.proj(M[0]), R, 1e-4)


@contract('fitcubic', ['NurbsCurve::FitWithCubic', 'MathUtils::ComputerCubicEquationsWithOneVariable'], [{'n': n, 's': s, 'k': k} for k in ('exact', 'line') for n in (1, 2, 3) for s in (0, 1)] + [{'n': 0, 's': s, 'k': 'end'} for s in (0, 1, 2)] + [{'n': n, 's': 0, 'k': 'far'} for n in (1, 2)], trials=6, native_only=True, note='points taken from a cubic with the given unit end tangents')
def fitcubic(E, c):
    A, B, n, s, k = E.point('A'), E.point('B'), c['n'], c['s'], c['k']
    T, U = E.point('T'), E.point('U')
    ch = vsub(B, A)
    E.assume(dot(T, T) > 0.3 and dot(U, U) > 0.3 and dot(ch, ch) > 0.5)
    T, U = vmul(T, 1 / E.sqrt(dot(T, T))), vmul(U, 1 / E.sqrt(dot(U, U)))
    tr = cross(ch, T)
    E.assume(dot(tr, tr) > 0.1 and abs(dot(tr, U)) > 0.1)
    a, b = E.pos('a', 0.3, 2), -E.pos('b', 0.3, 2)
    P = [A, vadd(A, vmul(T, a)), vadd(B, vmul(U, b)), B]
    K = KV([0.0] * 4 + [1.0] * 4, [0] * 4 + [100] * 4)
    Q = [spec.curve(K, 3, P, 3, (i + 1.0) / (n + 1)) for i in range(n)]
    if k == 'line':
        Q = [vadd(A, vmul(ch, (i + 1.0) / (n + 1))) for i in range(n)]
    if k == 'far':
        Q = [vadd(A, vadd(vmul(ch, (i + 1.0) / (n + 1)), vmul(tr, 3.0 + i))) for i in range(n)]
    if k == 'end':
        X = pts_of(E, range(4), 'X')
        i = c['s']
        T1 = [E.point('T%d' % j) for j in range(2)]
        E.assume(all(dot(t, t) > 0.3 for t in T1))
        r = E.ok('NurbsCurve::FitWithCubic', X, i, i + 1, T1[0], T1[1], 1e-3, [])
        M = [spec.proj(q) for q in r.out[0]]
        E.check('two middle control points', bool(r.ret) and len(M) == 2)
        for j, (m, x, sg) in enumerate(((M[0], X[i], 1), (M[1], X[i + 1], -1))):
            d = vsub(m, x)
            cr = cross(d, T1[j])
            E.check('along the tangent, into the segment', dot(cr, cr) < 1e-9 and sg * dot(d, T1[j]) >= 0)
        return
    pts = [E.point('x')] * s + [A] + Q + [B] + [E.point('y')] * s
    if len(pts) < 3:
        return
    r = E.ok('NurbsCurve::FitWithCubic', pts, s, s + n + 1, T, U, 1e-3, [])
    if k == 'far':
        if r.ret:
            M = [spec.proj(q) for q in r.out[0]]
            for q in Q:
                best = min(dot(vsub(q, x), vsub(q, x)) for x in (spec.curve(K, 3, [A, M[0], M[1], B], 3, i / 2000.0) for i in range(2001)))
                E.check('success only if the points are within the error bound', best <= 1e-4)
        return
    E.check('fitted', bool(r.ret))
    M = [spec.proj(q) for q in r.out[0]]
    E.check('two middle control points', len(M) == 2)
    w = P[1:3] if k == 'exact' else [vadd(A, vmul(ch, 1 / 3)), vadd(A, vmul(ch, 2 / 3))]
    E.eq('control points of the cubic', M, w, 1e-4)


@contract('gaeb', ['NurbsCurve::GlobalApproximationByErrorBound', 'NurbsCurve::RemoveKnotsByGivenBound'], [{'p': p, 'n': n, 'e': e, 'k': k} for p in (1, 2, 3) for n in (4, 5, 8) for e in (1e-5, 1e-2) for k in ('any',)] + [{'p': p, 'n': 4, 'e': 1e-5, 'k': 'line'} for p in (2, 3)], trials=4, native_only=True)
def gaeb(E, c):
    p = c['p']
    Q = pts_of(E, range(c['n']))
    if c['k'] == 'line':
        x, Q2 = 0.0, []
        for i in range(c['n']):
            Q2.append(vadd(Q[0], vmul(Q[1], x)))
            x += E.pos('x%d' % i)
        E.assume(dot(Q[1], Q[1]) > 0.3)
        Q = Q2
    C = E.ok('NurbsCurve::GlobalApproximationByErrorBound', p, Q, c['e'], None).out[0]
    kv, P = C['KnotVector'], C['ControlPoints']
    E.check('well formed', C['Degree'] == p and len(kv) == len(P) + p + 1 and all(a <= b + 1e-12 for a, b in zip(kv, kv[1:])))
    E.eq('first point', spec.proj(P[0]), Q[0], 1e-6)
    E.eq('last point', spec.proj(P[-1]), Q[-1], 1e-6)
    u = _params(E, Q)
    for i in range(c['n']):
        x = E.ok('NurbsCurve::GetPointOnCurve', C, u[i]).ret
        d = vsub(x, Q[i])
        E.check('point within the error bound', dot(d, d) <= (c['e'] + 1e-4) ** 2)
