"""C29 shape modification of curves."""
from fractions import Fraction
from .base import *
from .geo import one, vsub, vadd, vmul, dot, cross, generic
from spec import KV
import spec


def _rat(E, kv, p, P, i, u):
    """the rational basis functions at u on span i, and the curve point"""
    N = spec.N(kv, p, i, u)
    t = [N[j] * P[j][3] for j in range(i - p, i + 1)]
    W = sum(t[1:], t[0])
    return [x / W for x in t]


def _cases(tier, lits):
    out = []
    for p in pick(tier, (1, 2, 3), (1, 2, 3)):
        for m in pick(tier, ([p + 1, p + 1], [p + 1, 1, p + 1]), ([p + 1, p + 1], [p + 1, 1, p + 1], [p + 1, 1, 1, p + 1]), ([p + 1, 1, 2, p + 1],)):
            for s in range(len(m) - 1):
                for j in range(p + 1):
                    for g in (1, -1):
                        out.append({'p': p, 'm': m, 's': s, 'j': j, 'g': g})
    return out


def _unchanged(E, R, C, skip=()):
    E.eq('degree kept', R['Degree'], C['Degree'])
    E.eq('knots kept', R['KnotVector'], C['KnotVector'])
    E.check('number of control points kept', len(R['ControlPoints']) == len(C['ControlPoints']))
    for i, (a, b) in enumerate(zip(R['ControlPoints'], C['ControlPoints'])):
        if i not in skip:
            E.eq('control point %d kept' % i, a, b)


@contract('reposition', ['NurbsCurve::ControlPointReposition', 'RationalBasisFunction'], _cases, trials=3, summaries='gps')
def reposition(E, c):
    p = c['p']
    C, kv, vals, _ = draw_curve(E, p, c['m'], [('span', c['s'])])
    i, u = kv.spans(p)[c['s']], vals[0]
    k = i - p + c['j']
    V, d = E.point('V'), E.pos('d')
    L2 = dot(V, V)
    generic(E, L2)
    L = E.sqrt(L2)
    Rk = _rat(E, kv, p, C['ControlPoints'], i, u)[c['j']]
    E.alias(Rk)
    E.hint(Rk)
    d = d * c['g']
    R = E.ok('NurbsCurve::ControlPointReposition', C, u, k, V, d, None)
    if not R.ret:
        E.le('refused only where the control point has no influence', Rk, Fraction(1, 10 ** 5) if E.sym else 1e-5)
        return
    Q = R.out[0]
    _unchanged(E, Q, C, (k,))
    E.eq('weight of the moved control point kept', Q['ControlPoints'][k][3], C['ControlPoints'][k][3])
    a, b = (spec.proj(spec.curve(kv, p, x['ControlPoints'], i, u)) for x in (C, Q))
    for x in range(3):
        E.eq('curve point moved by the distance along the direction', (b[x] - a[x]) * L, V[x] * d, 1e-5)


@contract('reposout', ['NurbsCurve::ControlPointReposition'], [{'p': p, 'm': [p + 1, 1, 1, p + 1], 's': s} for p in (1, 2, 3) for s in range(3)], trials=2, summaries='gps')
def reposout(E, c):
    p = c['p']
    C, kv, vals, _ = draw_curve(E, p, c['m'], [('span', c['s'])])
    i, u = kv.spans(p)[c['s']], vals[0]
    V, d = E.point('V'), E.pos('d')
    generic(E, dot(V, V))
    for k in range(len(C['ControlPoints'])):
        if not i - p <= k <= i:
            E.check('control points without influence at the parameter cannot move the curve there', not E.ok('NurbsCurve::ControlPointReposition', C, u, k, V, d, None).ret)


@contract('weightmod', ['NurbsCurve::WeightModification', 'RationalBasisFunction'], _cases, trials=3, summaries='gps')
def weightmod(E, c):
    p = c['p']
    C, kv, vals, _ = draw_curve(E, p, c['m'], [('span', c['s'])])
    i, u = kv.spans(p)[c['s']], vals[0]
    k = i - p + c['j']
    d = E.pos('d')
    P = spec.proj(spec.curve(kv, p, C['ControlPoints'], i, u))
    v = vsub(spec.proj(C['ControlPoints'][k]), P)
    L2 = dot(v, v)
    generic(E, L2)
    L = E.sqrt(L2)
    generic(E, L - d)
    Rk = _rat(E, kv, p, C['ControlPoints'], i, u)[c['j']]
    E.alias(Rk)
    E.hint(Rk)
    d = d * c['g']
    if not E.sym:
        E.assume(Rk < 1e-6 or abs(1 + d / (Rk * (L - d))) > 1e-3)   # the new weight is not zero
    Q = E.call('NurbsCurve::WeightModification', C, u, k, d, None)
    if Q.exc:
        E.le('refused only where the control point has no influence', Rk, Fraction(1, 10 ** 5) if E.sym else 1e-5)
        return
    Q = Q.out[0]
    _unchanged(E, Q, C, (k,))
    E.eq('position of the control point kept', spec.proj(Q['ControlPoints'][k]), spec.proj(C['ControlPoints'][k]), 1e-5)
    b = spec.proj(spec.curve(kv, p, Q['ControlPoints'], i, u))
    for x in range(3):
        E.eq('curve point pulled by the distance towards the control point', (b[x] - P[x]) * L, v[x] * d, 1e-4)


@contract('neighbour', ['NurbsCurve::NeighborWeightsModification'], [{'p': p, 'm': m, 's': s, 'j': j} for p in (2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1]) for s in range(len(m) - 1) for j in range(p)], trials=3, native_only=True)
def neighbour(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    i = kv.spans(p)[c['s']]
    f = E.real('f', 0.2, 0.8)
    E.assume(0.1 <= f <= 0.9)
    u = kv.v[i] + f * (kv.v[i + 1] - kv.v[i])
    k = i - p + c['j']
    P = C['ControlPoints']
    rb = _rat(E, kv, p, P, i, u)
    a = spec.proj(spec.curve(kv, p, P, i, u))
    s = rb[c['j']] + rb[c['j'] + 1]
    E.assume(min(rb) > 1e-3 and s < 0.999)
    q = vmul(vadd(vmul(spec.proj(P[k]), rb[c['j']]), vmul(spec.proj(P[k + 1]), rb[c['j'] + 1])), 1 / s)
    r = vmul(vsub(a, vmul(q, s)), 1 / (1 - s))
    v, leg = vsub(q, r), vsub(spec.proj(P[k]), spec.proj(P[k + 1]))
    L = E.sqrt(dot(v, v))
    cr = cross(v, leg)
    E.assume(L > 0.1 and dot(cr, cr) > 1e-2)
    # the target stays strictly between R and Q
    g = E.real('g', 0.1, 0.9)
    E.assume(0.05 <= g <= 0.95 and abs(g - s) * L > 1e-2)
    d = (g - s) * L
    R = E.ok('NurbsCurve::NeighborWeightsModification', C, u, k, d, 2.0, None)
    E.check('accepted', bool(R.ret))
    Q = R.out[0]
    _unchanged(E, Q, C, (k, k + 1))
    for x in (k, k + 1):
        E.eq('positions of the control points kept', spec.proj(Q['ControlPoints'][x]), spec.proj(P[x]), 1e-5)
    E.eq('curve point moved by the distance along its line to the leg', spec.proj(spec.curve(kv, p, Q['ControlPoints'], i, u)), vadd(a, vmul(v, d / L)), 1e-4)


@contract('warp', ['NurbsCurve::Warping'], [{'p': p, 'm': m, 's': s, 'g': g} for p in (1, 2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1]) for s in range(len(m) - 1) for g in (1, -1)], trials=3, summaries='gps')
def warp(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    i = kv.spans(p)[c['s']]
    a, b = kv.v[i], kv.v[i + 1]
    u = (a + b) / 2
    d, n = E.pos('d'), E.point('n')
    D = spec.ratders([spec.curve(kv, p, C['ControlPoints'], i, u, k) for k in range(2)])
    w = cross(D[1], n)
    L2 = dot(w, w)
    generic(E, L2, dot(n, n))
    L = E.sqrt(L2)
    sh = [E.real('s%d' % x) for x in range(len(C['ControlPoints']))]
    Q = E.ok('NurbsCurve::Warping', C, sh, d * c['g'], n, a, b, None).out[0]
    _unchanged(E, Q, C, range(len(sh)))
    for x, (q, r) in enumerate(zip(Q['ControlPoints'], C['ControlPoints'])):
        E.eq('weights kept', q[3], r[3])
        for y in range(3):
            E.eq('control point moved by its share of the distance across the tangent in the plane', (q[y] / q[3] - r[y] / r[3]) * L, w[y] * sh[x] * d * c['g'], 1e-5)


@contract('flatten', ['NurbsCurve::Flattening', 'Projection::PointToLine'], [{'p': p, 'm': m, 'a': a, 'b': b} for p in (1, 2, 3) for m, a, b in (([p + 1] + [1] * (2 * p + 1) + [p + 1], 0, -1), ([p + 1] + [1] * (p + 2) + [p + 1], 0, -1), ([p + 1] + [1] * (p + 3) + [p + 1], 1, -2))], trials=6, native_only=True)
def flatten(E, c):
    p = c['p']
    C, kv, vals, _ = draw_curve(E, p, c['m'])
    d = sorted(set(kv.v))
    a, b = d[c['a']], d[c['b']]
    if c['b'] == -2:
        b = 0.5 * (d[-3] + d[-2])
    A, B = E.point('A'), E.point('B')
    v = vsub(B, A)
    L2 = dot(v, v)
    E.assume(L2 > 0.5)
    # a long line: about half of the control points project onto it
    P = C['ControlPoints']
    lo = max(x for x in range(len(kv.v)) if kv.v[x] <= a and x <= len(P) - 1)
    hi = max(x for x in range(len(kv.v)) if kv.v[x] <= b and x <= len(P) - 1)
    R = E.ok('NurbsCurve::Flattening', C, A, B, a, b, None)
    Q = R.out[0]
    cnt = 0
    moved = []
    for x in range(len(P)):
        if lo <= x <= hi - p - 1:
            q = spec.proj(P[x])
            t = dot(vsub(q, A), v) / L2
            E.assume(min(abs(t), abs(t - 1)) > 1e-4)
            if 0 < t < 1:
                cnt += 1
                moved.append(x)
                E.eq('control point with its support in the range projected onto the line', spec.proj(Q['ControlPoints'][x]), vadd(A, vmul(v, t)), 1e-5)
                E.eq('weight kept', Q['ControlPoints'][x][3], P[x][3])
    _unchanged(E, Q, C, moved)
    E.check('true iff at least degree + 1 control points were flattened', bool(R.ret) == (cnt >= p + 1))


@contract('bend', ['NurbsCurve::Bending'], [{'p': p, 'm': m, 'k': k} for p in (1, 2, 3) for m in ([p + 1] + [1] * (p + 2) + [p + 1], [p + 1] + [1] * (p + 1) + [p + 1]) for k in ('circle', 'ratio')], trials=3, summaries='gps', budget=60,
          big=[{'p': p, 'm': [p + 1] + [1] * n + [p + 1], 'k': k} for p in (1, 2, 3, 4) for n in (2 * p + 1, 2 * p + 3, 2 * p + 6) for k in ('circle', 'ratio')])
def bend(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    O, r = E.point('O'), E.pos('r')
    cr = one(E) if c['k'] == 'circle' else E.pos('c')
    P = C['ControlPoints']
    n = len(P) - 1
    sel = range(p, n - p)
    Ls = {}
    for x in sel:
        v = vsub(spec.proj(P[x]), O)
        L2 = dot(v, v)
        generic(E, L2)
        L = E.sqrt(L2)
        if not E.sym:
            E.assume(abs(1 + (cr - 1) * r / L) > 0.05)
        Ls[x] = (v, L)
    Q = E.ok('NurbsCurve::Bending', C, kv.v[0], kv.v[-1], O, r, cr, None).out[0]
    _unchanged(E, Q, C, list(sel))
    for x in sel:
        v, L = Ls[x]
        E.eq('weight kept', Q['ControlPoints'][x][3], P[x][3])
        q = vsub(spec.proj(Q['ControlPoints'][x]), O)
        # t = cr*s/(1+(cr-1)*s), s = r/L, along the ray
        for y in range(3):
            E.eq('control point moved along its ray by the cross ratio', q[y] * (L + (cr - 1) * r), v[y] * cr * r, 1e-5)
        if c['k'] == 'circle':
            E.eq('on the circle', dot(q, q), r * r, 1e-5)


@contract('constrain', ['NurbsCurve::ConstraintBasedModification', 'MathUtils::MakeInverse'], [{'p': p, 'm': m, 'k': k, 'fix': f} for p in (2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1]) for k in ([0], [1], [0, 1], [2]) for f in (0, 1)], trials=4, native_only=True)
def constrain(E, c):
    _constrain(E, c)


@contract('constrainsym', ['NurbsCurve::ConstraintBasedModification'], [{'p': p, 'm': m, 'k': k, 'fix': f} for p in (1, 2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1]) for k in ([0], [1], [0, 1], [2]) for f in (0, 1) if max(k) <= p and len(k) + f <= p + (k == [0])], trials=1, summaries='linear', budget=60)
def constrainsym(E, c):
    _constrain(E, c)


def _constrain(E, c):
    p = c['p']
    C, kv, vals, _ = draw_curve(E, p, c['m'], [('span', len(c['m']) - 2)])
    i = kv.spans(p)[-1]
    if E.sym:
        u = vals[0]
        for x in _rat(E, kv, p, C['ControlPoints'], i, u):
            E.hint(x)
            E.hint(x * x)
    else:
        f = E.real('f', 0.2, 0.8)
        E.assume(0.15 <= f <= 0.85)
        u = kv.v[i] + f * (kv.v[i + 1] - kv.v[i])
        E.assume(kv.v[i + 1] - kv.v[i] > 0.3)
    P = C['ControlPoints']
    D = [E.point('D%d' % x) for x in c['k']]
    fixed = [i - 1] if c['fix'] else []
    Q = E.ok('NurbsCurve::ConstraintBasedModification', C, [u], D, [0] * len(D), c['k'], fixed, None).out[0]
    _unchanged(E, Q, C, [x for x in range(i - p, i + 1) if x not in fixed])
    for a, b in zip(Q['ControlPoints'], P):
        E.eq('weights kept', a[3], b[3])
    K = max(c['k']) + 1
    d0, d1 = (spec.ratders([spec.curve(kv, p, x, i, u, k) for k in range(K)]) for x in (P, Q['ControlPoints']))
    for k, d in zip(c['k'], D):
        E.eq('derivative of order %d changed as asked' % k, vsub(d1[k], d0[k]), d, 1e-4)


@contract('offset', ['NurbsCurve::Offset'], [{'p': p, 'k': k, 's': s} for p in (2, 3) for k in ('PieglAndTiller', 'TillerAndHanson', 'zero') for s in (1, -1)], trials=4, native_only=True, noconf=True,
          note='convex plane arcs, offset below the radius of curvature: sampled points of the interpolating offset lie at the distance; both kinds start and end on the normals of the curve')
def offset(E, c):
    p, s = c['p'], c['s']
    import math
    r, a = E.pos('r', 2, 4), E.pos('a', 0.8, 1.4)
    E.assume(1.5 < r < 6 and 0.5 < a < 1.5)
    sw = E.real('sw', -0.2, 0.2)
    E.assume(abs(sw) <= 0.2)
    n = p + 1
    # control points of an arc-like convex Bezier curve in a tilted plane
    X, Y = (1.0, 0.0, 0.0), (0.0, math.cos(0.7), math.sin(0.7))
    O = E.point('O')
    if p == 2:
        Q = [(r, 0), (r, r * math.tan(a / 2) * (1 + sw)), (r * math.cos(a), r * math.sin(a))]
    else:
        h = 4 / 3 * math.tan(a / 4) * r * (1 + sw)
        Q = [(r, 0), (r, h), (r * math.cos(a) + h * math.sin(a), r * math.sin(a) - h * math.cos(a)), (r * math.cos(a), r * math.sin(a))]
    P = [vadd(O, vadd(vmul(X, x), vmul(Y, y))) + (1.0,) for x, y in Q]
    kv = KV([0.0] * n + [1.0] * n, [0] * n + [100] * n)
    C = {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': P}
    d = s * 0.2
    if c['k'] == 'zero':
        R = E.ok('NurbsCurve::Offset', C, 0.0, 0 if s > 0 else 1, None).out[0]
        E.check('zero offset: the curve', R['Degree'] == p and len(R['ControlPoints']) == n)
        E.eq('zero offset: control points', R['ControlPoints'], P)
        E.eq('zero offset: knots', R['KnotVector'], kv.v)
        return
    R = E.ok('NurbsCurve::Offset', C, d, 1 if c['k'] == 'PieglAndTiller' else 0, None).out[0]

    def normal(u):
        d1, d2 = (spec.curve(kv, p, P, p, u, k)[:3] for k in (1, 2))
        w = vsub(d2, vmul(d1, dot(d2, d1) / dot(d1, d1)))
        return vmul(w, dot(w, w) ** -.5)
    pt = lambda u: spec.curve(kv, p, P, p, u)[:3]
    for nm, u, i in (('start', 0.0, 0), ('end', 1.0, -1)):
        E.eq('%s moved along the normal by the distance' % nm, spec.proj(R['ControlPoints'][i]), vadd(pt(u), vmul(normal(u), d)), 1e-4)
    if c['k'] == 'PieglAndTiller':
        k2 = R['KnotVector']
        for j in range(21):
            q = E.ok('NurbsCurve::GetPointOnCurve', R, k2[0] + (k2[-1] - k2[0]) * j / 20).ret
            m = min(dot(vsub(q, pt(i / 400)), vsub(q, pt(i / 400))) for i in range(401)) ** .5
            E.le('every point lies at the distance', abs(m - abs(d)), 2e-3)
