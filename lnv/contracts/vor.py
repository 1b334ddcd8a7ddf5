"""C36: Delaunay triangulation and Voronoi diagram.  The geometric steps of the sweep (distance, bisector, meeting point of two
bisectors, side of a half edge, clipping) are under contract for all sites; the sweep itself runs over raw memory pools outside
the verifier's subset, so it is run concretely against the brute force definition (bounded stand-in)."""
import math, itertools
from .base import *
from .geo import one, generic


def _circ(a, b, c):
    d = 2 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    if abs(d) < 1e-12:
        return None
    e, f = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2, (c[0] - a[0]) ** 2 + (c[1] - a[1]) ** 2
    x = ((c[1] - a[1]) * e - (b[1] - a[1]) * f) / d
    y = ((b[0] - a[0]) * f - (c[0] - a[0]) * e) / d
    return a[0] + x, a[1] + y, math.hypot(x, y)


def brute(P, margin, big=1e3):
    """the Delaunay triangles; None unless in general position by the margin"""
    out = set()
    for t in itertools.combinations(range(len(P)), 3):
        q = _circ(*(P[i] for i in t))
        if q is None:
            return None
        best = min([(math.hypot(P[k][0] - q[0], P[k][1] - q[1]) - q[2]) for k in range(len(P)) if k not in t] or [1.0])
        if abs(best) < margin or (best > -margin and q[2] > big):
            return None
        if best > 0:
            out.add(frozenset(t))
    return out


def cells(P, lo, hi):
    """the edges of the Voronoi diagram inside the box: [(i, j, end, end)]"""
    out = []
    for i, j in itertools.combinations(range(len(P)), 2):
        m = ((P[i][0] + P[j][0]) / 2, (P[i][1] + P[j][1]) / 2)
        dx, dy = P[j][0] - P[i][0], P[j][1] - P[i][1]
        L = math.hypot(dx, dy)
        d = (-dy / L, dx / L)
        a, b = -1e9, 1e9
        cons = [((-1, 0), -lo[0]), ((1, 0), hi[0]), ((0, -1), -lo[1]), ((0, 1), hi[1])]
        for k in range(len(P)):
            if k not in (i, j):
                # nearer to i than to k:  2 (Pk - Pi).x <= |Pk|^2 - |Pi|^2
                n = (2 * (P[k][0] - P[i][0]), 2 * (P[k][1] - P[i][1]))
                cons.append((n, P[k][0] ** 2 + P[k][1] ** 2 - P[i][0] ** 2 - P[i][1] ** 2))
        for n, c in cons:
            s, r = n[0] * d[0] + n[1] * d[1], c - n[0] * m[0] - n[1] * m[1]
            if abs(s) < 1e-12:
                if r < 0:
                    b = a - 1
            elif s > 0:
                b = min(b, r / s)
            else:
                a = max(a, r / s)
        if b > a:
            out.append((i, j, (m[0] + a * d[0], m[1] + a * d[1]), (m[0] + b * d[0], m[1] + b * d[1]), b - a))
    return out


def f32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def sites(E, n, size, off, name='s'):
    P = []
    for i in range(n):
        x, y = E.real('%sx%d' % (name, i), -1.0, 1.0), E.real('%sy%d' % (name, i), -1.0, 1.0)
        E.assume(abs(x) <= 50 and abs(y) <= 50)
        P.append((f32(x * size + off[0]), f32(y * size + off[1])))
    return P


def compare(E, P, lo, hi, tri, edges, dela, size, least=0.0):
    tol = 2e-3 * size
    T = brute(P, 1e-3 * size, 30 * size)
    E.assume(T is not None)
    E.assume(all(math.hypot(a[0] - b[0], a[1] - b[1]) > 1e-2 * size for a, b in itertools.combinations(P, 2)))
    V = cells(P, lo, hi)
    far = lambda i, j: math.hypot(P[i][0] - P[j][0], P[i][1] - P[j][1]) >= least
    E.assume(all(abs(math.hypot(a[0] - b[0], a[1] - b[1]) - least) > 1e-3 * size for a, b in itertools.combinations(P, 2)))
    V = [v for v in V if far(v[0], v[1])]
    E.check('every triangle has three different sites', all(len(set(t)) == 3 and 0 <= min(t) and max(t) < len(P) for t in tri))
    E.check('no triangle twice', len({frozenset(t) for t in tri}) == len(tri))
    E.check('no site inside the circumcircle of a triangle', {frozenset(t) for t in tri} <= T)
    E.check('no triangle is missing', T <= {frozenset(t) for t in tri})
    at = {p: i for i, p in enumerate(P)}
    D = [(at.get((dela[k][0], dela[k][1])), at.get((dela[k + 1][0], dela[k + 1][1]))) for k in range(0, len(dela), 2)]
    E.check('the ends of Delaunay edges are sites', all(None not in x for x in D))
    if T:
        want = {frozenset(x) for t in T for x in itertools.combinations(sorted(t), 2) if far(*x)}
        E.check('the Delaunay edges are the sides of the triangles, each once', {frozenset(x) for x in D} == want and len(D) == len(want))
    S = [(edges[k], edges[k + 1]) for k in range(0, len(edges), 2)]
    near = lambda a, b: math.hypot(a[0] - b[0], a[1] - b[1]) < tol
    for a, b in S:
        E.check('Voronoi edges stay in the box', all(lo[i] - tol <= q[i] <= hi[i] + tol for q in (a, b) for i in (0, 1)))
        if not near(a, b):
            E.check('a Voronoi edge is the part of the bisector nearest to its two sites', any((near(a, v[2]) and near(b, v[3])) or (near(a, v[3]) and near(b, v[2])) for v in V))
    for v in V:
        if v[4] > 4 * tol:
            E.check('every Voronoi edge inside the box is listed once', sum(1 for a, b in S if (near(a, v[2]) and near(b, v[3])) or (near(a, v[3]) and near(b, v[2]))) == 1)


def _pt(E, n):
    p = E.point(n)
    return (p[0], p[1], p[2])


def _far(a, b):
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


@contract('vordist', ['VoronoiDiagramGenerator::dist'], [{}], trials=20, unbounded=True, noconf=True, summaries='sweep')
def vordist(E, c):
    p, q = _pt(E, 'p'), _pt(E, 'q')
    d = E.ok('LnvGlue::VorDist', p, q).ret
    E.eq('distance in the plane', d * d, _far(p, q), 1e-5)
    E.le('not negative', 0 * d, d)


@contract('vorbisect', ['VoronoiDiagramGenerator::bisect'], [{}], trials=20, unbounded=True, noconf=True, summaries='sweep')
def vorbisect(E, c):
    p, q, t = _pt(E, 'p'), _pt(E, 'q'), E.real('t')
    E.assume(E.gt0(_far(p, q)))
    if not E.sym:
        E.assume(0.1 < _far(p, q) < 400 and abs(t) < 10)
    a, b, k = E.ok('LnvGlue::VorBisect', p, q, 0.0, 0.0, 0.0).out[-3:]
    # a point of the line a x + b y = c; one of a, b is one
    n = a * a + b * b
    x, y = (a * k - b * t * n) / n, (b * k + a * t * n) / n
    E.eq('the points of the line are equally far from both sites', _far((x, y), p), _far((x, y), q), 1e-3)
    E.eq('the larger coefficient is one', (a - 1) * (b - 1), 0 * a)


def _way(E, k, n):
    """the four kinds of steps from one site to the next of the sweep: right or left, steep or flat"""
    a, b = E.pos(n + 'a'), E.pos(n + 'b')
    if not E.sym:
        E.assume(0.1 < a < 5 and 0.1 < b < 5)
    dx, dy = (a, a + b) if k[1] == 's' else (a + b, a)
    return (dx if k[0] == 'r' else -dx), dy


WAYS = ('rs', 'rf', 'ls', 'lf')


@contract('vormeet', ['VoronoiDiagramGenerator::intersect'], [{'l': l, 'r': r, 'a': a, 'b': b, 'y': y} for a in WAYS for b in WAYS for y, l, r in ((-1, 0, 1), (1, 1, 0))], trials=4, unbounded=True, noconf=True, summaries='sweep', budget=12.0)
def vormeet(E, c):
    p = _pt(E, 'p')
    d, e, h, g = _way(E, c['a'], 'd'), _way(E, c['b'], 'e'), E.pos('h'), E.real('g')
    q = (p[0] + d[0], p[1] + d[1], p[2])
    t = (p[0] + g, q[1] + h * c['y'], p[2])
    r = (t[0] - e[0], t[1] - e[1], p[2])
    R = E.ok('LnvGlue::VorMeet', p, q, r, t, c['l'], c['r'], 0.0, 0.0)
    if R.ret:
        x = R.out[-2:]
        if not E.sym:
            E.assume(max(abs(v) for v in x) < 30 and abs(h) < 20 and abs(g) < 20)
        E.eq('the vertex is on the first bisector', _far(x, p), _far(x, q), 1e-2)
        E.eq('the vertex is on the second bisector', _far(x, r), _far(x, t), 1e-2)


@contract('vorfound', ['VoronoiDiagramGenerator::intersect'], [{'l': l, 'r': r, 'a': a, 'e': e, 'y': y} for a in WAYS for e in (1e-4, 1e-3, 1e-2, 0.3) for l, r in ((0, 1), (1, 0)) for y in (-1, 1)], trials=6, native_only=True, noconf=True, note='also nearly parallel bisectors (angles from 1e-4)')
def vorfound(E, c):
    """two bisectors that are not parallel meet; the vertex is reported iff it lies on the given half of the one with the lower upper site"""
    p = _pt(E, 'p')
    d, k, h, g = _way(E, c['a'], 'd'), E.real('k', 0.5, 2.0), E.pos('h'), E.real('g')
    w = c['e'] * (1 if E.real('sgn') > 0 else -1)
    E.assume(0.5 <= k <= 2 and 0.1 < h < 5 and abs(g) < 5 and max(abs(x) for x in p) < 20)
    co, si = math.cos(w), math.sin(w)
    e = (k * (co * d[0] - si * d[1]), k * (si * d[0] + co * d[1]))
    E.assume(e[1] > 0.05)
    q = (p[0] + d[0], p[1] + d[1], p[2])
    t = (p[0] + g, q[1] + h * c['y'], p[2])
    r = (t[0] - e[0], t[1] - e[1], p[2])
    # d.x = d.(p+q)/2, e.x = e.(r+t)/2
    s0 = d[0] * (p[0] + q[0]) / 2 + d[1] * (p[1] + q[1]) / 2
    s1 = e[0] * (r[0] + t[0]) / 2 + e[1] * (r[1] + t[1]) / 2
    D = d[0] * e[1] - d[1] * e[0]
    x = ((s0 * e[1] - s1 * d[1]) / D, (d[0] * s1 - e[0] * s0) / D)
    top, half = (q, c['l']) if c['y'] > 0 else (t, c['r'])
    tol = (1e-3 + 1e-4 / c['e'] if c['e'] > 2e-4 else 0.9) * (1 + max(abs(v) for v in x + p))      # sites and coefficients are single precision
    E.assume(abs(x[0] - top[0]) > tol)
    R = E.ok('LnvGlue::VorMeet', p, q, r, t, c['l'], c['r'], 0.0, 0.0)
    E.check('bisectors meet iff the vertex is on the half edge', bool(R.ret) == ((x[0] > top[0]) == (half == 1)))
    if R.ret:
        E.check('the vertex', all(abs(a - b) < tol for a, b in zip(R.out[-2:], x)))


@contract('vorright', ['VoronoiDiagramGenerator::right_of'], [{'pm': m, 's': s, 'a': a} for m in (0, 1) for s in (-1, 1) for a in WAYS], trials=12, unbounded=True, noconf=True, summaries='sweep', budget=60.0)
def vorright(E, c):
    """the breakpoint of the half edge at the height of p is left of p"""
    bot = _pt(E, 'p')
    dx, dy = _way(E, c['a'], 'd')
    top = (bot[0] + dx, bot[1] + dy, bot[2])
    u, v = E.pos('u'), E.pos('v')
    p = (top[0] + u * c['s'], top[1] + v, bot[2])
    # above: the circle through the sites around the point of the bisector straight below p stays below p.  That point lies
    # k above the upper site with k dy = -((p.x - top.x) + dx / 2) dx - dy dy / 2, and above <=> (v - k)^2 > u^2 + k^2
    d = v * (v * dy + (2 * u * c['s'] + dx) * dx + dy * dy) - u * u * dy
    if not E.sym:
        E.assume(0.05 < v < 10 and 0.05 < u < 10 and abs(d) > 1e-2)
    r = E.ok('LnvGlue::VorRight', bot, top, c['pm'], p).ret
    if c['s'] > 0 and c['pm'] == 0:
        E.check('right of the left half edge', r)
    elif c['s'] < 0 and c['pm'] == 1:
        E.check('left of the right half edge', not r)
    elif bool(r) == (c['pm'] == 0):
        E.le('on that side of the breakpoint', 0 * d, d)
    else:
        E.le('on that side of the breakpoint', d, 0 * d)


@contract('vorclip', ['VoronoiDiagramGenerator::clip_line', 'VoronoiDiagramGenerator::pushGraphEdge'], [{'h': h, 'a': a} for h in (0, 1, 2, 3) for a in WAYS], trials=12, unbounded=True, noconf=True, summaries='sweep', budget=25.0)
def vorclip(E, c):
    z = _pt(E, 'z')         # any point of the edge inside the box
    dx, dy = _way(E, c['a'], 'd')
    t = E.real('t')
    p = (z[0] - t * dy - dx / 2, z[1] + t * dx - dy / 2, z[2])
    q = (p[0] + dx, p[1] + dy, z[2])
    lo = (z[0] - E.pos('l'), z[1] - E.pos('m'), z[2])
    hi = (z[0] + E.pos('r'), z[1] + E.pos('s'), z[2])
    g, h = E.pos('g'), E.pos('h')
    e0, e1 = (z[0] - g * dy, z[1] + g * dx, z[2]), (z[0] + h * dy, z[1] - h * dx, z[2])
    if not E.sym:
        E.assume(abs(t) < 10)
    R = E.ok('LnvGlue::VorClip', p, q, c['h'], e0, e1, lo, hi, 0.0, 0.0, 0.0, 0.0)
    E.check('one edge for a line that passes through the box', R.ret == 1)
    x1, y1, x2, y2 = R.out[-4:]
    for x in ((x1, y1), (x2, y2)):
        E.eq('the end is on the bisector', _far(x, p), _far(x, q), 1e-3)
        for i in (0, 1):
            E.le('the end is in the box', lo[i], x[i], 1e-3)
            E.le('the end is in the box', x[i], hi[i], 1e-3)
    for i in (c['a'][1] == 'f',):
        E.le('the edge covers the part of the bisector in the box', (z[i] - (x1, y1)[i]) * (z[i] - (x2, y2)[i]), 0 * t, 1e-3)


SIZES = [{'n': n, 's': s, 'off': o, 'l': l} for n in (3, 4, 5, 7, 10, 14) for s, o, l in ((1.0, (0.0, 0.0), 0.0), (40.0, (0.0, 0.0), 0.0), (5.0, (-20.0, 30.0), 0.0), (1.0, (0.0, 0.0), 0.4))]


@contract('delaunay', ['VoronoiDiagramGenerator::generateVoronoi', 'VoronoiDiagramGenerator::getTriangles'], SIZES, trials=8, native_only=True, nat_budget=20.0)
def delaunay(E, c):
    P = sites(E, c['n'], c['s'], c['off'])
    w = E.real('w', 0.5, 2.0) * c['s']
    E.assume(0.3 * c['s'] < w < 4 * c['s'])
    lo, hi = (c['off'][0] - w, c['off'][1] - w), (c['off'][0] + w, c['off'][1] + 1.3 * w)
    R = E.ok('LnvGlue::Voronoi', [[(x, y, 0.0) for x, y in P]], lo + (0.0,), hi + (0.0,), c['l'], False, [], [], [])
    compare(E, P, lo, hi, *R.out[-3:], c['s'], c['l'])


@contract('delaunayagain', ['VoronoiDiagramGenerator::generateVoronoi', 'VoronoiDiagramGenerator::reset'], [{'n': n, 'k': k, 'r': r} for n in (4, 8) for k in (3, 9) for r in (False, True)], trials=8, native_only=True, nat_budget=20.0)
def delaunayagain(E, c):
    Q = sites(E, c['k'], 1.0, (0.0, 0.0), 'q')
    P = sites(E, c['n'], 1.0, (0.0, 0.0))
    lo, hi = (-1.5, -1.5), (1.5, 1.5)
    R = E.ok('LnvGlue::Voronoi', [[(x, y, 0.0) for x, y in S] for S in (Q, P)], lo + (0.0,), hi + (0.0,), 0.0, c['r'], [], [], [])
    compare(E, P, lo, hi, *R.out[-3:], 1.0)


def area(a, b, c):
    return abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / 2


def hull(P):
    P = sorted(set(P))
    def half(L):
        h = []
        for p in L:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(P) + half(P[::-1])


@contract('delaunaygrid', ['VoronoiDiagramGenerator::generateVoronoi'], [{'g': g, 'k': k} for g in ((2, 2), (3, 2), (3, 4), (5, 5), (1, 6), (6, 1), (9, 7)) for k in ('grid', 'shear')], trials=4, native_only=True, nat_budget=20.0)
def delaunaygrid(E, c):
    """cocircular and collinear sites: still a triangulation of the hull with no site inside a circumcircle"""
    n, m = c['g']
    a, b = E.pos('a', 0.5, 2.0), E.pos('b', 0.5, 2.0)
    E.assume(0.3 < a < 3 and 0.3 < b < 3)
    q = E.real('q', -1.0, 1.0) if c['k'] == 'shear' else 0.0
    E.assume(abs(q) < 2)
    P = [(f32(a * i + q * j), f32(b * j)) for i in range(n) for j in range(m)]
    lo, hi = (-3.0, -1.0), (2.0 * n + 3, 2.0 * m + 1)
    R = E.ok('LnvGlue::Voronoi', [[(x, y, 0.0) for x, y in P]], lo + (0.0,), hi + (0.0,), 0.0, False, [], [], [])
    tri, edges, dela = R.out[-3:]
    tri = [t for t in tri if area(*(P[i] for i in t)) > 1e-4]
    H = hull(P)
    E.eq('the triangles cover the hull once', sum(area(*(P[i] for i in t)) for t in tri), sum(area(H[0], H[i], H[i + 1]) for i in range(1, len(H) - 1)) if min(n, m) > 1 else 0.0, 1e-3)
    for t in tri:
        x, y, r = _circ(*(P[i] for i in t))
        E.check('no site inside the circumcircle of a triangle', all(math.hypot(p[0] - x, p[1] - y) > r - 1e-3 * (1 + r) for p in P))
    for k in range(0, len(edges), 2):
        mid = ((edges[k][0] + edges[k + 1][0]) / 2, (edges[k][1] + edges[k + 1][1]) / 2)
        d = sorted(math.hypot(p[0] - mid[0], p[1] - mid[1]) for p in P)
        E.check('Voronoi edges run between their two nearest sites', d[1] - d[0] < 1e-3 * (1 + d[0]))


@contract('triangulate', ['NurbsSurface::Triangulate', 'VoronoiDiagramGenerator::generateVoronoi'], [{'r': r, 'k': k} for r in ((3, 3), (4, 6), (8, 5), (12, 12)) for k in ('flat', 'bent')], trials=3, native_only=True, noconf=True, nat_budget=20.0)
def triangulate(E, c):
    """over a function graph z = f(x, y) with x, y linear in u, v: the mesh is seen in the plane"""
    a, b = E.pos('a', 1.0, 3.0), E.pos('b', 1.0, 3.0)
    E.assume(0.5 < a / b < 2)
    x0, y0 = E.real('x', -2.0, 2.0), E.real('y', -2.0, 2.0)
    z = [E.real('z%d' % i, 0.0, 1.0) for i in range(9)]
    E.assume(max(abs(t) for t in z) < 3)
    if c['k'] == 'flat':
        z = [0.0] * 9
    S = {'DegreeU': 2, 'DegreeV': 2, 'KnotVectorU': [0.0] * 3 + [1.0] * 3, 'KnotVectorV': [0.0] * 3 + [1.0] * 3,
         'ControlPoints': [[(x0 + a * i / 2, y0 + b * j / 2, z[3 * i + j], 1.0) for j in range(3)] for i in range(3)]}
    M = E.ok('NurbsSurface::Triangulate', S, c['r'][0], c['r'][1], True).ret
    V, F = M['Vertices'], M['Faces']
    E.check('at least one vertex per grid cell', len(V) >= (c['r'][0] - 1) * (c['r'][1] - 1))
    bern = lambda t: ((1 - t) ** 2, 2 * t * (1 - t), t * t)
    for p in V:
        u, v = (p[0] - x0) / a, (p[1] - y0) / b
        E.check('vertices belong to the domain', -1e-6 <= u <= 1 + 1e-6 and -1e-6 <= v <= 1 + 1e-6)
        E.eq('vertices lie on the surface', p[2], sum(bern(u)[i] * bern(v)[j] * z[3 * i + j] for i in range(3) for j in range(3)), 1e-5)
    E.check('faces are triples of vertices', all(len(set(f)) == 3 and 0 <= min(f) and max(f) < len(V) for f in F))
    Q = [(p[0], p[1]) for p in V]
    sides = {}
    for f in F:
        for e in itertools.combinations(sorted(f), 2):
            sides[e] = sides.get(e, 0) + 1
    E.check('no side belongs to more than two faces', max(sides.values()) <= 2)
    H = hull(Q)
    want = sum(area(H[0], H[i], H[i + 1]) for i in range(1, len(H) - 1))
    E.eq('the faces cover the hull of the vertices once', sum(area(*(Q[i] for i in f)) for f in F), want, 2e-2)
