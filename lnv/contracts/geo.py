"""C21: intersection and projection; C23: lines, arcs, conics, Hermite curves."""
from .base import *
from .vec import *
import spec
import math
from spec import KV, vadd, vsub, vmul, dot, cross
from fractions import Fraction

INTERSECTING, PARALLEL, COINCIDENT, SKEW = 0, 1, 2, 3


def one(E):
    return Fraction(1) if E.sym else 1.0


def comb3(E, *tv):
    out = None
    for k, v in tv:
        out = vmul(v, k) if out is None else vadd(out, vmul(v, k))
    return out


def generic(E, *quantities):
    """concrete runs: keep away from degenerate configurations"""
    if not E.sym:
        for q in quantities:
            E.assume(abs(q) > 2e-2)


# ------------------------------------------------------------------ C21
@contract('rays', ['Intersection::ComputeRays'], [{'k': k} for k in ('meet', 'skew', 'parallel', 'same', 'antisame', 'samedir', 'start')], summaries='gpz', trials=12,
          note='generic position within each class (meeting, skew, parallel, coincident lines)')
def rays(E, c):
    p0, v0, v1 = E.point('p'), E.point('v'), E.point('w')
    s, t = E.real('s'), E.real('t')
    x2 = dot(cross(v0, v1), cross(v0, v1))
    k = c['k']
    generic(E, dot(v0, v0), dot(v1, v1))
    if k in ('meet', 'start'):
        if k == 'start':
            s = t = s * 0
        generic(E, x2)
        X = vadd(p0, vmul(v0, s))
        p1 = vsub(X, vmul(v1, t))
        r = E.ok('Intersection::ComputeRays', p0, v0, p1, v1, 0, 0, (0, 0, 0))
        E.check('meeting lines are reported as intersecting', r.ret == INTERSECTING)
        E.eq('intersection point', r.out[2], X, 1e-4)
        E.eq('parameters', [r.out[0], r.out[1]], [s, t], 1e-4)
        return
    if k == 'skew':
        h = E.pos('h', 0.5, 2)
        generic(E, x2)
        n = cross(v0, v1)
        p1 = vsub(vadd(vadd(p0, vmul(v0, s)), vmul(n, h)), vmul(v1, t))
        if not E.sym:
            E.assume(h * math.sqrt(x2) > 1e-3)
        r = E.ok('Intersection::ComputeRays', p0, v0, p1, v1, 0, 0, (0, 0, 0))
        E.check('lines that do not meet are reported as skew', r.ret == SKEW)
        E.eq('closest points (parameters)', [r.out[0], r.out[1]], [s, t], 1e-4)
        return
    q = E.pos('q', 0.4, 2)
    if not E.sym:
        E.assume(abs(q - 1) > 1e-3)
    if k == 'samedir':
        r = E.ok('Intersection::ComputeRays', p0, v0, p0, v0, 0, 0, (0, 0, 0))
        E.check('identical rays meet', r.ret in (INTERSECTING, COINCIDENT))
        E.eq('common point', r.out[2], p0)
        return
    if k == 'parallel':
        h = E.pos('h', 0.5, 2)
        w = cross(v0, v1)          # any direction orthogonal to v0
        generic(E, x2)
        p1 = vadd(vadd(p0, vmul(v0, s)), vmul(w, h))
        if not E.sym:
            E.assume(h * math.sqrt(dot(w, w)) * math.sqrt(dot(v0, v0)) > 1e-2)
    else:
        generic(E, s)
        p1 = vadd(p0, vmul(v0, s))
    r = E.ok('Intersection::ComputeRays', p0, v0, p1, vmul(v0, -q if k == 'antisame' else q), 0, 0, (0, 0, 0))
    E.check('parallel / coincident lines are told apart', r.ret == (PARALLEL if k == 'parallel' else COINCIDENT))
    if k != 'parallel':
        E.eq('a point of the common line', cross(vsub(r.out[2], p0), v0), (0, 0, 0), 1e-4)
        E.eq('the point at the first parameter', r.out[2], vadd(p0, vmul(v0, r.out[0])))


@contract('lineplane', ['Intersection::ComputeLineAndPlane'], [{'k': k} for k in ('cut', 'on', 'parallel')], summaries='gpz', trials=10)
def lineplane(E, c):
    n, o, a, b = E.point('n'), E.point('o'), E.point('a'), E.point('b')
    generic(E, dot(n, n))
    if c['k'] == 'cut':
        generic(E, dot(a, n), dot(a, a))
        r = E.ok('Intersection::ComputeLineAndPlane', n, o, b, a, (0, 0, 0))
        E.check('a line across the plane intersects', r.ret == 0)
        E.eq('the point lies in the plane', dot(vsub(r.out[0], o), n), 0 * dot(n, n), 1e-4)
        E.eq('the point lies on the line', cross(vsub(r.out[0], b), a), (0, 0, 0), 1e-4)
        return
    d = cross(n, a)
    generic(E, dot(d, d))
    h = E.pos('h', 0.5, 2)
    P = vadd(o, cross(n, b))
    if c['k'] == 'parallel':
        P = vadd(P, vmul(n, h))
        if not E.sym:
            E.assume(h * dot(n, n) > 1e-3)
    r = E.ok('Intersection::ComputeLineAndPlane', n, o, P, d, (0, 0, 0))
    E.check('line in / parallel to the plane', r.ret == (2 if c['k'] == 'on' else 1))
    if c['k'] == 'on':
        E.eq('a point of the plane', dot(vsub(r.out[0], o), n), 0 * h, 1e-4)
        E.eq('a point of the line', cross(vsub(r.out[0], P), d), (0, 0, 0), 1e-4)


@contract('project', ['Projection::PointToRay', 'Projection::PointToLine', 'Projection::Stereographic'], [{'k': k} for k in ('ray', 'in', 'before', 'after', 'zero', 'stereo')], summaries='gpz', trials=10)
def project(E, c):
    o, v, p = E.point('o'), E.point('v'), E.point('p')
    k = c['k']
    generic(E, dot(v, v))
    if k == 'ray':
        q = E.ok('Projection::PointToRay', o, v, p).ret
        E.eq('foot point lies on the line', cross(vsub(q, o), v), (0, 0, 0), 1e-5)
        E.eq('difference is orthogonal to the line', dot(vsub(p, q), v), 0 * dot(v, v), 1e-5)
        return
    if k == 'zero':
        r = E.ok('Projection::PointToLine', o, o, p, (0, 0, 0))
        E.check('a segment of length zero has no projection', not r.ret)
        return
    if k == 'stereo':
        # plane z = 0, sphere of radius R on top of it, projected from its north pole
        R = E.pos('R', 0.5, 2)
        x, y, z = p
        if not E.sym:
            E.assume(abs(z - 2 * R) > 0.1)
        q = E.ok('Projection::Stereographic', p, R).ret
        N = (0 * R, 0 * R, 2 * R)
        E.eq('image lies in the plane z = 0', q[2], 0 * R)
        E.eq('image is collinear with the pole and the point', cross(vsub(q, N), vsub(p, N)), (0, 0, 0), 1e-5)
        return
    t = E.between('t', 0, 1) if k == 'in' else E.pos('t', 0.05, 2)
    n = cross(v, p)
    t = -t if k == 'before' else t if k == 'in' else 1 + t
    X = vadd(o, vmul(v, t))
    E.alias(t)
    if E.sym:
        if k == 'before':
            E.assume(E.gt0(-t - Fraction(4, 10 ** 6) * (1 - t)))
        if k == 'after':
            E.assume(E.gt0(t - 1 - Fraction(4, 10 ** 6) * (1 + t)))
    else:
        E.assume(t < -1e-3 or t > 1 + 1e-3 or 0 <= t <= 1)
    r = E.ok('Projection::PointToLine', o, vadd(o, v), vadd(X, n), (0, 0, 0))
    E.check('a segment projection exists exactly when the foot lies on the segment', bool(r.ret) == (k == 'in'))
    if k == 'in':
        E.eq('foot point', r.out[0], X, 1e-5)


# ------------------------------------------------------------------ C23
@contract('line', ['NurbsCurve::CreateLine'], [{'k': 0}, {'k': 1}], summaries='gpz', trials=8)
def line(E, c):
    a, b = E.point('a'), E.point('b')
    if c['k']:
        r = E.call('NurbsCurve::CreateLine', a, a, None)
        E.check('a line of length zero is refused', bool(r.exc))
        return
    generic(E, dot(vsub(a, b), vsub(a, b)))
    R = E.ok('NurbsCurve::CreateLine', a, b, None).out[0]
    z, o = 0 * one(E), one(E)
    wellformed_curve(E, 'line', R, 1, KV([z, z, o, o], [0, 0, 1, 1]))
    u = E.interior('u', z, o)
    E.eq('straight segment with linear parameter', spec.proj(spec.curve(KV(R['KnotVector'], [0, 0, 1, 1]), 1, R['ControlPoints'], 1, u)), vadd(vmul(a, 1 - u), vmul(b, u)))


def bez_spans(kv_vals, q, n):
    """ranks of a knot vector made of n Bezier spans of degree q with full interior multiplicity"""
    return [0] * (q + 1) + [100 * k for k in range(1, n) for _ in range(q)] + [100 * n] * (q + 1)


@contract('arc', ['NurbsCurve::CreateArc'], lambda tier, lits: [{'n': n, 'k': k} for n in (1, 2, 3, 4) for k in ('free', 'ellipse', 'top', 'skewaxes')], summaries='gpz', trials=8, budget=60,
          note='sweep angles of each quarter class (and exactly pi/2, pi, 3pi/2, 2pi)')
def arc(E, c):
    n, k = c['n'], c['k']
    o, X = E.point('o'), E.point('X')
    y = E.point('y')
    Y = y if k == 'skewaxes' else cross(X, y)
    a = E.angle('a')
    rx = E.pos('rx')
    ry = E.pos('ry') if k in ('ellipse', 'skewaxes') else rx
    xy = cross(X, Y)
    if E.sym:
        from terms import PI
        pi = PI
    else:
        pi = math.pi
        E.assume(dot(X, X) > 0.1 and dot(Y, Y) > 0.1 and dot(xy, xy) > 0.05 * dot(X, X) * dot(Y, Y))
    th = pi * n / 2 if k == 'top' else E.between('th', pi * (n - 1) / 2 + (Fraction(1, 1000) if E.sym else 0.05), pi * n / 2)
    if E.sym:
        t4 = Fraction(4, 10 ** 6)
        for x in (rx, ry):
            E.assume(E.gt0(x - t4 * (1 + x)))
        E.assume(E.gt0(th - t4 * (1 + E.max(E.abs(a + th), E.abs(a)))))
        # lemma: the Gram determinant of two tangents is a square (Lagrange)
        ux, uy = vmul(X, 1 / E.sqrt(dot(X, X))), vmul(Y, 1 / E.sqrt(dot(Y, Y)))
        tg = [vadd(vmul(ux, -rx * E.sin(a + th * i / n)), vmul(uy, ry * E.cos(a + th * i / n))) for i in range(n + 1)]
        for p, q in zip(tg, tg[1:]):
            gram(E, p, q)
    r = E.ok('NurbsCurve::CreateArc', o, X, Y, a, a + th, rx, ry, None)
    E.check('the arc is created', bool(r.ret))
    R = r.out[0]
    E.check('degree two', R['Degree'] == 2)
    kn, P = R['KnotVector'], R['ControlPoints']
    E.check('control point count', len(kn) == len(P) + 3)
    d = sorted(set(float(x) if not E.sym else x.a if hasattr(x, 'a') else x for x in kn))
    E.check('parameter range [0,1]', d[0] == 0 and d[-1] == 1)
    rk = [d.index(float(x) if not E.sym else x.a if hasattr(x, 'a') else x) for x in kn]
    kv = KV(kn, rk)
    E.check('clamped', kv.mult(0) == 3 and kv.mult(len(d) - 1) == 3)
    # unit axes
    nx = vmul(X, 1 / E.sqrt(dot(X, X)))
    ny = vmul(Y, 1 / E.sqrt(dot(Y, Y)))
    nn = cross(nx, ny)
    dx, dy = cross(ny, nn), cross(nn, nx)

    def coords(p):
        q = vsub(p, o)
        return dot(q, dx) / dot(nx, dx) / rx, dot(q, dy) / dot(ny, dy) / ry, dot(q, nn)
    co, si = (E.cos, E.sin) if E.sym else (math.cos, math.sin)
    E.eq('starts at the start angle', coords(spec.proj(P[0])), (co(a), si(a), 0), 1e-5)
    E.eq('ends at the end angle', coords(spec.proj(P[-1])), (co(a + th), si(a + th), 0), 1e-5)
    if not E.sym:
        E.check('weights are positive', all(p[3] > 1e-9 for p in P))
    pts = []
    for i in kv.spans(2):
        u = E.interior('u%d' % i, kn[i], kn[i + 1])
        x, yy, z = coords(spec.proj(spec.curve(kv, 2, P, i, u)))
        E.eq('every point lies on the ellipse (plane)', z, 0 * x, 1e-5)
        E.eq('every point lies on the ellipse', x * x + yy * yy, 1 + 0 * x, 1e-5)
        pts.append(i)
    if not E.sym:
        # swept angle: monotone, total = end - start
        tot, last = 0.0, a
        for s in range(1, 41):
            t = s / 40
            i = max(j for j in range(len(kn)) if kn[j] <= t and j < len(P))
            x, yy, _ = coords(spec.proj(spec.curve(kv, 2, P, i, t)))
            g = math.atan2(yy, x)
            dlt = (g - last + math.pi) % (2 * math.pi) - math.pi
            E.check('the arc runs forward', dlt > -1e-7)
            tot += dlt
            last = g
        E.eq('swept angle', tot, th, 1e-5)


def gram(E, a, b):
    """lemma (Lagrange): the Gram determinant of two vectors is the square of their cross product"""
    n = cross(a, b)
    E.hint(dot(n, n))


def conic_setup(E, c):
    """a conic arc given by start, end, apex and shoulder weight; the point on it at parameter u"""
    P0, P1, P2 = E.point('a'), E.point('b'), E.point('c')
    w = E.pos('w', 0.2, 2.5)
    if c.get('w') == 'neg':
        w = -(E.between('w1', 0, 1) if E.sym else E.between('w1', 0.2, 0.8))
    if c.get('w') == 'one':
        w = w * 0 + 1
    u = E.between('u', 0, 1) if E.sym else E.between('u', 0.15, 0.85)
    E.root(u / (1 - u))
    k0, k1 = E.pos('k0'), E.pos('k1')
    sg = -1 if c.get('s') else 1
    h = comb3(E, ((1 - u) * (1 - u), P0), (2 * u * (1 - u) * w, P1), (u * u, P2))
    d = (1 - u) * (1 - u) + 2 * u * (1 - u) * w + u * u
    X = vmul(h, 1 / d)
    if not E.sym:
        n = cross(vsub(P1, P0), vsub(P2, P0))
        E.assume(dot(n, n) > 0.3)
        E.assume(d > 0.15)
    t0, t2 = vmul(vsub(P1, P0), k0), vmul(vsub(P1, P2), k1 * sg)
    E.alias(w)
    gram(E, t0, t2)
    gram(E, vsub(X, P1), vsub(P2, P0))
    return P0, P1, P2, w, X, t0, t2


@contract('onecon', ['NurbsCurve::CreateOneConicArc'], [{'w': w, 's': s} for w in (None, 'neg', 'one') for s in (0, 1)], summaries='gpz', trials=40,
          note='generic position; lemma: the square root taken is that of (u/(1-u))^2')
def onecon(E, c):
    P0, P1, P2, w, X, t0, t2 = conic_setup(E, c)
    r = E.ok('NurbsCurve::CreateOneConicArc', P0, t0, P2, t2, X, (0, 0, 0), 0)
    E.check('the conic arc exists', bool(r.ret))
    E.eq('apex', r.out[0], P1, 1e-4)
    E.eq('shoulder weight', r.out[1], w, 1e-3)


@contract('splitarc', ['NurbsCurve::SplitArc'], [{'k': k} for k in ('fin', 'neg', 'inf')], trials=12)
def splitarc(E, c):
    """subdivision of the rational quadratic arc at its shoulder point; weight 0: apex at infinity (given as a direction)"""
    P0, P1, P2 = E.point('a'), E.point('b'), E.point('c')
    w = E.pos('w', 0.2, 2.5)
    if c['k'] == 'neg':
        w = -E.between('w1', 0.1, 0.8)
    if c['k'] == 'inf':
        w = 0 * one(E)
    elif E.sym:
        E.assume(E.gt0((w if c['k'] == 'fin' else -w) - Fraction(4, 10 ** 6)))
    r = E.ok('NurbsCurve::SplitArc', P0, P1, w, P2, (0, 0, 0), (0, 0, 0), (0, 0, 0), 0)
    Q, S, R, wq = r.out
    # the two halves are arcs with end weights 1 and shoulder weight wq on the same conic
    H = (vmul(P1, w) if c['k'] != 'inf' else P1) + (w,)
    whole = [P0 + (one(E),), H, P2 + (one(E),)]
    mid = vmul(spec.blossom_bezier(whole, Fraction(1, 2) if E.sym else 0.5), 2)
    E.eq('shoulder point', S, spec.proj(mid), 1e-5)
    hq = vmul(vadd(whole[0], whole[1]), 1)
    hr = vmul(vadd(whole[1], whole[2]), 1)
    E.eq('first inner control point', Q, spec.proj(hq), 1e-5)
    E.eq('second inner control point', R, spec.proj(hr), 1e-5)
    # weight in standard form: w_mid^2 / (w_0 w_2) is invariant
    E.eq('weight of the halves', wq * wq, (1 + w) / 2, 1e-5)
    if not E.sym:
        E.check('positive weight', wq > 0)


@contract('conic', ['NurbsCurve::CreateOpenConic'], [{'w': w, 's': s} for w in (None, 'neg', 'one', 'inf') for s in (0, 1)], summaries='gpz', trials=40, budget=60,
          note='generic position; the angle deciding the number of segments is uninterpreted, so every segment count is verified; signs (branch, positive weights) by concrete runs')
def conic(E, c):
    if c['w'] == 'inf':
        P0, P2, d = E.point('a'), E.point('c'), E.point('d')
        n = cross(d, vsub(P2, P0))
        u = E.between('u', 0, 1) if E.sym else E.between('u', 0.2, 0.8)
        E.root(u / (1 - u))
        if not E.sym:
            E.assume(dot(n, n) > 0.3)
        den = (1 - u) * (1 - u) + u * u
        X = vmul(comb3(E, ((1 - u) * (1 - u), P0), (2 * u * (1 - u), d), (u * u, P2)), 1 / den)
        k = E.pos('k0')
        t0, t2 = vmul(d, k), vmul(d, -k if c['s'] else k)
        # P1 is a direction: X = alpha P0 + beta d + gamma P2, alpha + gamma = 1
        P1, w = d, None
        gram(E, t0, vsub(P2, P0))
    else:
        P0, P1, P2, w, X, t0, t2 = conic_setup(E, c)
        if E.sym and c['w'] is None:
            E.assume(E.gt0(w - Fraction(4, 10 ** 6)))
        if E.sym and c['w'] == 'neg':
            E.assume(E.gt0(-w - Fraction(4, 10 ** 6)))
            E.assume(E.gt0(1 + w - Fraction(1, 10 ** 5)))
    r = E.ok('NurbsCurve::CreateOpenConic', P0, t0, P2, t2, X, None)
    E.check('the conic is created', bool(r.ret))
    R = r.out[0]
    kn, P = R['KnotVector'], R['ControlPoints']
    E.check('degree two, matching sizes', R['Degree'] == 2 and len(kn) == len(P) + 3)
    cv = lambda x: x if not hasattr(x, 'a') else x.a
    d_ = sorted(set(cv(x) for x in kn))
    kv = KV(kn, [d_.index(cv(x)) for x in kn])
    E.check('clamped over [0,1]', d_[0] == 0 and d_[-1] == 1 and kv.mult(0) == 3 and kv.mult(len(d_) - 1) == 3)
    E.eq('starts at the start point', spec.proj(P[0]), P0, 1e-5)
    E.eq('ends at the end point', spec.proj(P[-1]), P2, 1e-5)
    if not E.sym:
        E.check('finite control points with non-zero weight', all(abs(p[3]) > 1e-9 for p in P))

    def bary(x):
        """coordinates of x in the frame (P0, P1, P2); P1 a point or a direction"""
        e1, e2 = vsub(P2, P0), (vsub(P1, P0) if w is not None else P1)
        q = vsub(x, P0)
        nn = cross(e1, e2)
        s2 = dot(nn, nn)
        g = dot(cross(q, e2), nn) / s2
        b = dot(cross(e1, q), nn) / s2
        return (1 - g - b, b, g, dot(q, nn)) if w is not None else (1 - g, b, g, dot(q, nn))
    if E.sym:
        ts = [(i, E.interior('u%d' % i, kn[i], kn[i + 1])) for i in kv.spans(2)]
    else:
        ts = [0.5 / 17 + k / 17 for k in range(17)]
        ts = [(max(j for j in range(len(kn)) if kn[j] <= t and j < len(P)), t) for t in ts]
    for i, t in ts:
        h = spec.curve(kv, 2, P, i, t)
        al, be, ga, pl = bary(spec.proj(h))
        E.eq('in the plane of the conic', pl, 0 * pl, 1e-5)
        E.eq('on the conic', be * be, (4 * w * w if w is not None else 4) * al * ga, 1e-3)
        if not E.sym:
            E.check('weight function stays positive', h[3] > 1e-9)
            E.check('on the arc between start and end', al > -1e-6 and ga > -1e-6)
            E.check('on the branch through the given point', (be > 0) == (bary(X)[1] > 0))
    for nm, sp, at_, tg in (('start tangent', 2, kn[0], t0), ('end tangent', len(P) - 1, kn[-1], t2)):
        D0 = spec.ratders([spec.curve(kv, 2, P, sp, at_, j) for j in (0, 1)])[1]
        sc = 1 if E.sym else 1 / math.sqrt(dot(D0, D0) * dot(tg, tg))
        E.eq(nm, vmul(cross(D0, tg), sc), (0, 0, 0), 1e-4)


@contract('hermite', ['NurbsCurve::CreateCubicHermite'], lambda tier, lits: [{'n': n, 'k': k} for n in (4, 5, 6) for k in ('open', 'closed', 'cyclic')], summaries='gpz', trials=6, budget=60)
def hermite(E, c):
    n = c['n']
    Q, T = E.points('Q', n), E.points('T', n)
    if c['k'] != 'open':
        Q[-1] = Q[0]
    if c['k'] == 'cyclic':
        T[-1] = T[0]
    L = [E.sqrt(dot(vsub(Q[i + 1], Q[i]), vsub(Q[i + 1], Q[i]))) for i in range(n - 1)]
    if not E.sym:
        E.assume(all(x > 0.1 for x in L))
        E.assume(dot(vsub(T[0], T[-1]), vsub(T[0], T[-1])) > 0.01 or c['k'] == 'cyclic')
        E.assume(dot(vsub(Q[0], Q[-1]), vsub(Q[0], Q[-1])) > 0.01 or c['k'] != 'open')
    tot = sum(L[1:], L[0])
    uk = [0 * one(E)]
    for x in L[:-1]:
        uk.append(uk[-1] + x / tot)
    uk.append(one(E))
    R = E.ok('NurbsCurve::CreateCubicHermite', Q, T, None).out[0]
    E.check('cubic', R['Degree'] == 3)
    kn, P = R['KnotVector'], R['ControlPoints']
    E.check('sizes', len(P) == 2 * n and len(kn) == 2 * n + 4)
    E.eq('double interior knots at the chord-length parameters', kn[2:-2], [x for x in uk for _ in (0, 1)], 1e-6)
    lo = {'open': (0, 0), 'closed': None, 'cyclic': None}[c['k']]
    if c['k'] == 'open':
        E.eq('clamped start', kn[:2], [uk[0]] * 2)
        E.eq('clamped end', kn[-2:], [uk[-1]] * 2)
        r = [0, 0]
        rk = [0, 0] + [100 * i for i in range(n) for _ in (0, 1)] + [100 * (n - 1)] * 2
    elif c['k'] == 'cyclic':
        rk = [-100, -100] + [100 * i for i in range(n) for _ in (0, 1)] + [100 * n] * 2
    else:
        rk = [-100, 0] + [100 * i for i in range(n) for _ in (0, 1)] + [100 * (n - 1), 100 * n]
    kv = KV(kn, rk)
    for i in range(n):
        sp = 2 + 2 * i + 1 if i < n - 1 else 2 + 2 * (n - 1) - 1
        u = uk[i]
        D = spec.ratders([spec.curve(kv, 3, P, sp, u, k) for k in (0, 1)])
        E.eq('passes through point %d' % i, D[0], Q[i], 1e-5)
        E.eq('with tangent %d' % i, D[1], T[i], 1e-4)


@contract('midquad', ['BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve', 'Interpolation::ComputerWeightForRationalQuadraticInterpolation'], [{'k': k} for k in ('meet', 'line', 'parallel', 'away', 'skew')], trials=12, native_only=True,
          note='tangent rays that meet ahead: their meeting point with the weight of the mean bisector; collinear data: the middle; otherwise two arcs joined on the segment between their apexes')
def midquad(E, c):
    k = c['k']
    A, R, B = E.point('A'), E.point('R'), E.point('B')
    cr = cross(vsub(R, A), vsub(B, A))
    L = lambda p, q: dot(vsub(p, q), vsub(p, q)) ** .5
    E.assume(dot(cr, cr) > 0.3 and L(A, R) > 0.3 and L(B, R) > 0.3 and L(A, B) > 0.3)
    s, t = E.pos('s', 0.3, 3), E.pos('t', 0.3, 3)
    unit = lambda v: vmul(v, dot(v, v) ** -.5)
    T, U = vmul(vsub(R, A), s), vmul(vsub(B, R), t)
    ch = vsub(B, A)
    if k == 'line':
        T, U = vmul(ch, s), vmul(ch, -t if s > t else t)
    elif k == 'parallel':
        T = U = unit(T)
    elif k == 'away':                   # the rays meet, but behind the end point
        T, U = unit(T), unit(vmul(U, -1))
        th0, th1 = (dot(vsub(R, x), ch) / (L(R, x) * L(A, B)) for x in (A, B))
        E.assume(min(1 + 2 / 3 * th1 + th0 / 3, 1 + 2 / 3 * th0 + th1 / 3) > 0.1)
    elif k == 'skew':
        T, U = unit(T), unit(vadd(U, cr))
    r = E.ok('BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve', A, T, B, U, [])
    E.check('found', bool(r.ret))
    M = r.out[0]
    if k in ('meet', 'line'):
        E.check('one middle control point', len(M) == 1)
        if k == 'line':
            E.eq('the middle of the chord', M[0], vmul(vadd(A, B), 0.5) + (1.0,), 1e-5)
        else:
            E.eq('the tangents meet there', spec.proj(M[0]), R, 1e-5)
            r1, r2 = L(A, B) / (2 * L(A, R)), L(A, B) / (2 * L(B, R))
            q = (r1 / (1 + r1) + r2 / (1 + r2)) / 2
            if abs(L(A, R) - L(B, R)) > 1e-3:
                E.eq('weight of the mean bisector intersection', M[0][3], q / (1 - q), 1e-4)
        return
    E.check('two arcs', len(M) == 3)
    R1, Q, R2 = (spec.proj(x) for x in M)
    for nm, d, v in (('first', vsub(R1, A), T), ('second', vsub(B, R2), U)):
        E.eq('%s apex along its tangent' % nm, cross(d, v), (0.0, 0.0, 0.0), 1e-5)
        E.le('%s apex ahead' % nm, 0.0, dot(d, v))
    E.eq('the arcs join on the line of their apexes', cross(vsub(Q, R1), vsub(R2, R1)), (0.0, 0.0, 0.0), 1e-5)
    E.le('between them', 0.0, dot(vsub(Q, R1), vsub(R2, Q)))
    E.eq('junction has weight one', M[1][3], 1.0)
    E.eq('tangents at the junction are split like the apex distances', vmul(vsub(Q, R1), L(B, R2)), vmul(vsub(R2, Q), L(A, R1)), 1e-4)
