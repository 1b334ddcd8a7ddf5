"""C32: octree neighbour search, bounding boxes."""
import itertools, math
from fractions import Fraction
from .base import *
from .vec import *
from .geo import one, generic
import spec
from spec import vadd, vsub, vmul, dot, cross

SG = [(1, 1, 1), (-1, 1, -1), (1, -1, -1)]


def _q(E, s):
    o = one(E)
    c, e, r = E.point('c'), E.pos('e'), E.pos('r')
    a = [E.pos('a%d' % i, 0.05, 5.0) for i in range(3)]
    q = tuple(c[i] + s[i] * a[i] for i in range(3))
    return c, e, r, a, q


@contract('octinside', ['Inside'], [{'s': s} for s in SG], trials=30, unbounded=True, summaries='exact')
def octinside(E, c_):
    c, e, r, a, q = _q(E, c_['s'])
    R = E.ok('LnvGlue::OctInside', q, r, c, e)
    E.iffall('true iff the ball lies inside the cube', R.ret, [('lt', a[i] + r, e) for i in range(3)])


@contract('octcontains', ['Contains'], [{'s': s} for s in SG], trials=30, unbounded=True, summaries='exact')
def octcontains(E, c_):
    c, e, r, a, q = _q(E, c_['s'])
    R = E.ok('LnvGlue::OctContains', q, r, c, e)
    far = sum((a[i] + e) * (a[i] + e) for i in range(3))
    E.iffall('true iff the farthest corner of the cube lies inside the ball', R.ret, [('lt', far, r * r)])


@contract('octoverlaps', ['Overlaps'], [{'s': s} for s in SG], trials=60, unbounded=True, summaries='exact')
def octoverlaps(E, c_):
    c, e, r, a, q = _q(E, c_['s'])
    t = [E.between('t%d' % i, -1, 1, True) for i in range(3)]
    R = E.ok('LnvGlue::OctOverlaps', q, r, c, e)
    m = [E.max(a[i] - e, 0 * e) for i in range(3)]
    for i in range(3):
        E.le('points of the cube are at least that far away on axis %d' % i, m[i] * m[i], (t[i] * e - c_['s'][i] * a[i]) * (t[i] * e - c_['s'][i] * a[i]))
    d2 = sum(k * k for k in m)
    if R.ret:
        E.le('a cube that is visited reaches the ball', d2, r * r, tol=2e-5)
    else:
        E.le('a cube that is skipped has no point inside the ball', r * r, d2)


@contract('octsmall', ['Overlaps'], [{'s': s, 'k': k, 'w': w} for s in SG for k in (3, 4) for w in ((1, 0, 0), (1, 1, 0), (1, 1, 1))], trials=60, native_only=True, note='tolerances at small radii')
def octsmall(E, c_):
    h = 10.0 ** -c_['k']
    c, e, r = E.point('c'), E.pos('e'), E.pos('r', h, 10 * h)
    a = [c_['w'][i] * e + E.real('a%d' % i, 0.0, 6 * h) for i in range(3)]
    q = tuple(c[i] + c_['s'][i] * a[i] for i in range(3))
    R = E.ok('LnvGlue::OctOverlaps', q, r, c, e)
    d = math.sqrt(sum(max(abs(a[i]) - e, 0.0) ** 2 for i in range(3)))
    if not R.ret:
        E.le('a cube that is skipped has no point inside the ball by more than the tolerance', r, d + 3e-6)


def _perms(tier, lits):
    out = []
    for n in (0, 1, 2, 3):
        for p in itertools.permutations(range(n)):
            for k in (1, 2, 3):
                out.append({'p': p, 'k': k})
    for p in ((3, 1, 0, 2), (0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1, 4), (4, 3, 2, 1, 0)):
        for k in (1, 2, 3, 4):
            out.append({'p': p, 'k': k})
    return out


@contract('octknnset', ['KnnResultSet::AddPoint'], _perms, trials=3, summaries='exact')
def octknnset(E, c):
    n, k = len(c['p']), c['k']
    o = one(E)
    d, x = [], 0 * o
    for i in range(n):
        x = x + E.pos('d%d' % i)
        d.append(x)
    E.assume(E.gt0(10 ** 9 - x))
    D = [d[i] for i in c['p']]
    R = E.ok('LnvGlue::KnnSet', k, D, 0, False)
    E.check('as many neighbours as points, at most k', R.out[0] == min(n, k))
    E.check('full when k neighbours were found', bool(R.out[1]) == (n >= k))
    if n >= k:
        E.eq('worst distance is the k-th smallest', R.ret, d[k - 1])
    else:
        E.check('no bound before k neighbours were found', R.ret >= 1e9 if not E.sym else R.ret - 10 ** 9 >= 0)


@contract('octradset', ['RadiusNnResultSet::AddPoint'], [{'n': n, 'j': j} for n in range(4) for j in range(n + 1)], trials=3, summaries='exact')
def octradset(E, c):
    o = one(E)
    xs, x, r = [], 0 * o, None
    for i in range(c['n'] + 1):
        x = x + E.pos('d%d' % i)
        if i == c['j']:
            r = x
        else:
            xs.append(x)
    R = E.ok('LnvGlue::RadiusSet', r, xs[::-1], 0)
    E.check('exactly the points within the radius are kept', R.ret == c['j'])
    E.eq('radius kept', R.out[0], r)


def _cloud(E, n, k):
    Q = E.points('Q', n)
    if k == 'grid':
        Q = [tuple(float(round(x)) for x in p) for p in Q]
    if k == 'flat':
        Q = [(p[0], p[1], Q[0][2]) for p in Q]
    if k == 'dup':
        Q = [Q[i // 2] for i in range(n)]
    if k == 'cluster':
        Q = [tuple(x * (1e-3 if i % 2 else 1) for x in p) for i, p in enumerate(Q)]
    return Q


CL = [{'n': n, 'k': k, 'leaf': l} for n in (0, 1, 2, 5, 17, 60) for k in ('any', 'grid', 'flat', 'dup', 'cluster') for l in (1, 3)]


@contract('octtree', ['OctreeConstruction', 'OctreeRecursiveBuild'], CL, trials=2, native_only=True)
def octtree(E, c):
    Q = _cloud(E, c['n'], c['k'])
    me = 1e-3
    R = E.ok('LnvGlue::OctreeDump', Q, c['leaf'], me, [], [], [], [], [])
    C, X, P, L, I = R.out
    if not Q:
        return E.check('no tree for no points', len(C) == 0)
    E.check('the root holds every point once', sorted(I[0]) == list(range(c['n'])))
    for j in range(len(C)):
        ch = [k for k in range(len(C)) if P[k] == j]
        if L[j]:
            E.check('a leaf has no children', not ch)
            E.check('a leaf is small', len(I[j]) <= c['leaf'] or X[j] <= me)
        else:
            E.check('the children hold the points of their parent, each once', sorted(x for k in ch for x in I[k]) == sorted(I[j]))
            E.check('no empty children', all(I[k] for k in ch))
        for k in ch:
            E.eq('child extent', X[k], X[j] / 2)
            for a in range(3):
                E.eq('child centre', abs(C[k][a] - C[j][a]), X[j] / 2)
        for x in I[j]:
            for a in range(3):
                E.check('the points of a node lie in its cube', abs(Q[x][a] - C[j][a]) <= X[j] + 1e-4)


@contract('octsearch', ['OctreeRadiusSearch', 'OctreeRadiusSearchFast', 'OctreeKnnSearch'], CL, trials=3, native_only=True)
def octsearch(E, c):
    Q = _cloud(E, c['n'], c['k'])
    n = c['n']
    for j in range(4):
        q = Q[j] if j == 3 and n > 3 else E.point('q%d' % j)
        d = sorted(math.sqrt(dot(vsub(x, q), vsub(x, q))) for x in Q)
        rs = [0.05, E.pos('r%d' % j), E.pos('s%d' % j, 2, 9), 20.0]
        for m in (0, n // 3, 2 * n // 3, n - 1):
            if n and d[m] > 1e-3:
                rs += [d[m] * 1.0001, d[m] * 0.9999]
        for r in rs:
            if any(abs(x - r) < 3e-6 * (1 + r) for x in d):      # within the tolerance of MathUtils
                continue
            w = sum(1 for x in d if x <= r)
            E.eq('radius search finds exactly the points within the radius', E.ok('LnvGlue::RadiusSearch', Q, c['leaf'], 1e-3, r, q).ret, w)
            E.eq('fast radius search finds exactly the points within the radius', E.ok('LnvGlue::RadiusSearchFast', Q, c['leaf'], 1e-3, r, q).ret, w)
        for k in (1, 2, 5):
            R = E.ok('LnvGlue::KnnSearch', Q, c['leaf'], 1e-3, k, q, 0, False)
            E.eq('nearest neighbour search finds k points', R.out[0], min(n, k))
            E.check('full iff k points were found', bool(R.out[1]) == (n >= k))
            if n >= k:
                E.eq('k-th nearest distance', R.ret, d[k - 1], 4e-6)


def _sgn(n):
    return list(itertools.product((0, 1), repeat=n))


@contract('octsearchsym', ['OctreeConstruction', 'OctreeRadiusSearch', 'OctreeRadiusSearchFast', 'OctreeKnnSearch'],
          [{'o': o, 'j': j} for o in ((1, 1, 1), (1, -1, 1)) for j in range(3)], trials=3, max_paths=3000, budget=120, summaries='exact')
def octsearchsym(E, c):
    """two points and any query on the line of the first axis; j of the points are within the radius"""
    o = one(E)
    A = E.point('A')
    D = [E.pos('D%d' % i) * c['o'][i] for i in range(3)]
    B = vadd(A, tuple(D))
    h = E.pos('h')
    q = (A[0] - h, A[1], A[2])
    da = h * h
    w = vsub(B, q)
    db = dot(w, w)
    # radius by class
    g = E.pos('g')
    if c['j'] == 0:
        r = h / (1 + g)
    else:
        r = h + g
    nb = 1 if c['j'] == 2 else 0
    if c['o'][0] > 0:
        if c['j'] == 2:
            E.assume(E.gt0(r * r - db))
        if c['j'] == 1:
            E.assume(E.gt0(db - r * r))
        if c['j'] == 0:
            pass
        W = c['j']
    else:
        if c['j'] == 2:
            E.assume(E.gt0(r * r - db))
            W = 2
        elif c['j'] == 1:
            E.assume(E.gt0(db - r * r))
            W = 1
        else:
            E.assume(E.gt0(db - r * r))
            W = 0
    if not E.sym:
        E.assume(abs(r * r - da) > 1e-4 and abs(r * r - db) > 1e-4 and abs(da - db) > 1e-4)
    m = Fraction(1, 1000) if E.sym else 1e-3
    E.eq('radius search counts the points within the radius', E.ok('LnvGlue::RadiusSearch', [A, B], 1, m, r, q).ret, W)
    E.eq('fast radius search counts the points within the radius', E.ok('LnvGlue::RadiusSearchFast', [A, B], 1, m, r, q).ret, W)


@contract('octknnsym', ['OctreeConstruction', 'OctreeKnnSearch'], [{'o': o, 'k': k} for o in ((1, 1, 1), (1, -1, 1)) for k in (1, 2, 3)], trials=3, max_paths=3000, budget=120, summaries='exact')
def octknnsym(E, c):
    A = E.point('A')
    D = [E.pos('D%d' % i) * c['o'][i] for i in range(3)]
    B = vadd(A, tuple(D))
    h = E.pos('h')
    q = (A[0] - h, A[1], A[2])
    w = vsub(B, q)
    E.assume(E.gt0(10 ** 9 - dot(w, w)))
    E.assume(E.gt0(10 ** 9 - h))
    E.root(h)
    m = Fraction(1, 1000) if E.sym else 1e-3
    R = E.ok('LnvGlue::KnnSearch', [B, A], 1, m, c['k'], q, 0, False)
    E.check('number of neighbours found', R.out[0] == min(2, c['k']))
    E.check('full', bool(R.out[1]) == (c['k'] <= 2))
    if c['k'] <= 2:
        E.eq('distance of the k-th neighbour', R.ret * R.ret, h * h if c['k'] == 1 else dot(w, w))


@contract('sobb', ['NurbsSurface::GetOrientedBoundingBox'], [{'u': u, 'v': v, 'k': k} for u, v in ((1, 1), (2, 1), (2, 3)) for k in ('any', 'box')], trials=6, native_only=True)
def sobb(E, c):
    S = draw_surface(E, c['u'], [c['u'] + 1, 1, c['u'] + 1], c['v'], [c['v'] + 1, c['v'] + 1])[0]
    R = E.ok('LnvGlue::OrientedBox', S).ret
    C, A, H = R[0], R[1:4], R[4]
    for i in range(3):
        for j in range(3):
            E.eq('axes are orthonormal', dot(A[i], A[j]), 1.0 if i == j else 0.0, 1e-6)
    for row in S['ControlPoints']:
        for p in row:
            x = vsub(spec.proj(p), C)
            for i in range(3):
                E.check('every control point (hence the surface) lies in the box', abs(dot(x, A[i])) <= H[i] + 1e-6)
    for i in range(3):
        for s in (1, -1):
            E.check('the box is tight', any(abs(s * dot(vsub(spec.proj(p), C), A[i]) - H[i]) <= 1e-6 for row in S['ControlPoints'] for p in row))


@contract('sbox', ['NurbsSurface::GetBoundingBox'], [{'u': u, 'v': v, 'mu': mu, 'mv': mv} for u, v in ((1, 1), (2, 1), (2, 3)) for mu, mv in (([u + 1, u + 1], [v + 1, 1, 1, v + 1]), ([u + 1, 1, 1, u + 1], [v + 1, v + 1]), ([u + 1, u, u + 1], [v + 1, v, v + 1]))]
          + [{'bulge': 1}], trials=6, native_only=True)
def sbox(E, c):
    if 'bulge' in c:
        h = 1.0
        S = {'DegreeU': 2, 'DegreeV': 2, 'KnotVectorU': [0., 0., 0., 1., 1., 1.], 'KnotVectorV': [0., 0., 0., 1., 1., 1.],
             'ControlPoints': [[(float(i), float(j), 4.0 * h if i == j == 1 else 0.0, 1.0) for j in range(3)] for i in range(3)]}
        R = E.ok('LnvGlue::Box', S).ret
        x = E.ok('NurbsSurface::GetPointOnSurface', S, (0.5, 0.5)).ret
        E.check('the box contains the surface between the knots', all(R[0][a] - 1e-9 <= x[a] <= R[1][a] + 1e-9 for a in range(3)))
        return
    S, ku, kv, _, _ = draw_surface(E, c['u'], c['mu'], c['v'], c['mv'])
    R = E.ok('LnvGlue::Box', S).ret
    P = [spec.proj(p) for r in S['ControlPoints'] for p in r]
    for a in range(3):
        lo, hi = min(p[a] for p in P), max(p[a] for p in P)
        E.check('the box lies within the box of the control points', lo - 1e-9 <= R[0][a] and R[1][a] <= hi + 1e-9)
        if c['u'] == c['v'] == 1:
            E.eq('box of a bilinear net is the box of its points', (R[0][a], R[1][a]), (lo, hi), 1e-6)
    for u in sorted(set(ku.v)):
        for v in sorted(set(kv.v)):
            x = E.ok('NurbsSurface::GetPointOnSurface', S, (u, v)).ret
            for a in range(3):
                E.check('the box contains the surface at its knots', R[0][a] - 1e-6 <= x[a] <= R[1][a] + 1e-6)


@contract('boxmeet', ['LN_BoundingBox3d::Intersects'], [{'s': s} for s in itertools.product((-1, 0, 1), repeat=3)], trials=3)
def boxmeet(E, c):
    """relative position of the two boxes on each axis: before, overlapping, behind"""
    a0, e, f = E.point('a'), [E.pos('e%d' % i) for i in range(3)], [E.pos('f%d' % i) for i in range(3)]
    g = [E.pos('g%d' % i) for i in range(3)]
    a1 = tuple(a0[i] + e[i] for i in range(3))
    b0 = tuple(a0[i] - f[i] - g[i] if c['s'][i] < 0 else a1[i] + g[i] if c['s'][i] > 0 else a1[i] - g[i] for i in range(3))
    b1 = tuple(b0[i] + f[i] + (g[i] if c['s'][i] == 0 else 0) for i in range(3))
    R = E.ok('LnvGlue::BoxesMeet', a0, a1, b0, b1)
    # with s = 0 the box b reaches from inside or before a to beyond its end
    E.check('boxes meet iff they overlap on every axis', bool(R.ret) == (tuple(c['s']) == (0, 0, 0)))
