"""C34 point inversion: from a point back to its parameter."""
from .base import *
from .surf import rat, c_geo
from .geo import vsub, vadd, vmul, dot, cross
import spec


def dist(a, b):
    d = vsub(a, b)
    return dot(d, d) ** .5


def frac(E, name, lo=0.0, hi=1.0):
    f = E.real(name, lo, hi)
    E.assume(lo <= f <= hi)
    return f


def reaches(kv, p):
    """(lo, hi, span) of the non-empty spans"""
    return [(kv.v[i], kv.v[i + 1], i) for i in kv.spans(p)]


def inside(E, what, x, lo, hi, slack=1e-6):
    E.le(what + ' not below the domain', lo - slack * (1 + abs(lo) + abs(hi)), x)
    E.le(what + ' not above the domain', x, hi + slack * (1 + abs(lo) + abs(hi)))


def where(kv, p, u):
    for lo, hi, i in reaches(kv, p):
        if u < hi:
            return i
    return reaches(kv, p)[-1][2]


def bound_speed(E, ds):
    """keep away from points where the curve (nearly) stops: there the parameter is not determined"""
    E.assume(all(dot(d, d) > 1e-2 for d in ds))


@contract('invcurve', ['NurbsCurve::GetParamOnCurve', 'NurbsCurve::GetAllParamsOnCurve'], [{'p': p, 'm': m, 'l': l, 'k': k} for p in (1, 2, 3, 4) for m in knot_shapes(p)[:4] for k in ('open', 'closed') for l in [list(x) for x in locs(m)] if k == 'open' or (p > 1 and len(m) > 2 and l[0] == 'span')],
          trials=3, native_only=True, note='the 99 samples per span and the Newton iteration are beyond the symbolic executor: concrete runs; a point of the curve is found again (within the distance tolerance 1e-4)')
def invcurve(E, c):
    p = c['p']
    C, kv, vals, ranks = draw_curve(E, p, c['m'])
    P = C['ControlPoints']
    if c['k'] == 'closed':
        P[-1] = P[0]
    if c['l'][0] == 'span':
        lo, hi, i = reaches(kv, p)[c['l'][1]]
        u = lo + (hi - lo) * frac(E, 'f')
    else:
        u = [kv.v[i] for i in range(len(kv.v)) if i == 0 or kv.r[i] != kv.r[i - 1]][c['l'][1]]
        i = where(kv, p, u)
    H = [spec.curve(kv, p, P, i, u, k) for k in range(2)]
    D = spec.ratders(H)
    bound_speed(E, D[1:])
    q = E.ok('NurbsCurve::GetParamOnCurve|const XYZ', C, D[0]).ret
    inside(E, 'parameter', q, kv.v[0], kv.v[-1])
    E.le('the curve passes through the point at the parameter', dist(E.ok('NurbsCurve::GetPointOnCurve', C, q).ret, D[0]), 2e-4)
    if p == 1:
        return
    A = E.ok('NurbsCurve::GetAllParamsOnCurve', C, D[0]).ret
    for x in A:
        inside(E, 'each parameter', x, kv.v[0], kv.v[-1], 1e-4)
    E.check('one of all the parameters is a parameter of the point', any(dist(E.ok('NurbsCurve::GetPointOnCurve', C, min(max(x, kv.v[0]), kv.v[-1])).ret, D[0]) < 2e-4 for x in A))
    E.check('the parameters differ', all(abs(A[a] - A[b]) > 1e-8 for a in range(len(A)) for b in range(a)))


@contract('projcurve', ['NurbsCurve::GetParamOnCurve'], [{'p': p, 'm': m, 'k': k} for p in (1, 2, 3, 4) for m in knot_shapes(p)[:4] for k in ('open', 'closed') if k == 'open' or p > 1], trials=6, native_only=True, noconf=True,
          note='arbitrary points: the parameter is in the domain and its point is (up to the sampling distance of 99 points per span) no farther than any other')
def projcurve(E, c):
    p = c['p']
    C, kv, vals, ranks = draw_curve(E, p, c['m'])
    P = C['ControlPoints']
    if c['k'] == 'closed':
        P[-1] = P[0]
    X = E.point('X')
    q = E.ok('NurbsCurve::GetParamOnCurve|const XYZ', C, X).ret
    inside(E, 'parameter', q, kv.v[0], kv.v[-1])
    pts = [[spec.proj(spec.curve(kv, p, P, i, lo + (hi - lo) * j / 60)) for j in range(61)] for lo, hi, i in reaches(kv, p)]
    step = max(dist(a, b) for r in pts for a, b in zip(r, r[1:]))
    E.le('no point of the curve is much closer', dist(E.ok('NurbsCurve::GetPointOnCurve', C, q).ret, X), min(dist(x, X) for r in pts for x in r) + step)


def patch(E, pu, mu, pv, mv, kind, bumpy=1.0):
    """a surface over a convex piece of the plane (kind 'graph') or any surface"""
    S, ku, kv, _, _ = draw_surface(E, pu, mu, pv, mv)
    N = S['ControlPoints']
    if kind != 'any':
        n, m = len(N), len(N[0])
        S['ControlPoints'] = [[tuple(y * w for y in (2.0 * i + 0.2 * q[0] / (1 + abs(q[0])), 2.0 * j + 0.2 * q[1] / (1 + abs(q[1])), bumpy * q[2] / (1 + abs(q[2])))) + (w,)
                               for j, P in enumerate(r) for w in [P[3] if kind == 'graph' else 1.0] for q in [spec.proj(P)]] for i, r in enumerate(N)]
    return S, ku, kv


SHAPES = [(1, [2, 2], 1, [2, 2]), (2, [3, 3], 1, [2, 1, 2]), (2, [3, 1, 3], 2, [3, 3]), (3, [4, 4], 2, [3, 1, 3]), (3, [4, 1, 4], 3, [4, 4])]


@contract('invsurf', ['NurbsSurface::GetParamOnSurface', 'NurbsSurface::GetAllParamsOnSurface', 'NurbsSurface::GetPointOnSurface'], [{'s': s, 'l': l} for s in range(5) for l in ('in', 'u0', 'u1', 'v0', 'v1', 'c')], trials=3, native_only=True, noconf=True, nat_budget=12,
          note='points of a patch lying over a plane, inside and on its edges')
def invsurf(E, c):
    pu, mu, pv, mv = SHAPES[c['s']]
    S, ku, kv = patch(E, pu, mu, pv, mv, 'graph')
    f, g = frac(E, 'f', 0.05, 0.95), frac(E, 'g', 0.05, 0.95)
    f = {'u0': 0.0, 'u1': 1.0, 'c': 1.0}.get(c['l'], f)
    g = {'v0': 0.0, 'v1': 1.0, 'c': 0.0}.get(c['l'], g)
    u, v = ku.v[0] + f * (ku.v[-1] - ku.v[0]), kv.v[0] + g * (kv.v[-1] - kv.v[0])
    if f == 1.0: u = ku.v[-1]
    if g == 1.0: v = kv.v[-1]
    X = spec.proj(spec.surface(ku, pu, kv, pv, S['ControlPoints'], where(ku, pu, u), u, where(kv, pv, v), v))
    q = E.ok('NurbsSurface::GetParamOnSurface', S, X).ret
    inside(E, 'u', q[0], ku.v[0], ku.v[-1])
    inside(E, 'v', q[1], kv.v[0], kv.v[-1])
    E.le('the surface passes through the point at the parameters', dist(E.ok('NurbsSurface::GetPointOnSurface', S, q).ret, X), 1e-3)
    if c['l'] == 'in':
        A = E.ok('NurbsSurface::GetAllParamsOnSurface', S, X).ret
        E.check('all the parameters include those of the point', any(dist(E.ok('NurbsSurface::GetPointOnSurface', S, a).ret, X) < 1e-3 for a in A))


@contract('projsurf', ['NurbsSurface::GetParamOnSurface', 'NurbsSurface::ComputeSignedDistanceFunction'], [{'s': s, 'k': k} for s in range(5) for k in ('off', 'sdf')], trials=3, native_only=True, noconf=True, nat_budget=12,
          note='off: arbitrary points; sdf: a gently curved patch, points at signed distance h along the normal')
def projsurf(E, c):
    pu, mu, pv, mv = SHAPES[c['s']]
    if c['k'] == 'off':
        S, ku, kv = patch(E, pu, mu, pv, mv, 'graph')
        X = vmul(E.point('X'), 1.5)
        q = E.ok('NurbsSurface::GetParamOnSurface', S, X).ret
        inside(E, 'u', q[0], ku.v[0], ku.v[-1])
        inside(E, 'v', q[1], kv.v[0], kv.v[-1])
        n = 14
        us = [(i, lo + (hi - lo) * j / n) for lo, hi, i in reaches(ku, pu) for j in range(n + 1)]
        vs = [(i, lo + (hi - lo) * j / n) for lo, hi, i in reaches(kv, pv) for j in range(n + 1)]
        G = [[spec.proj(spec.surface(ku, pu, kv, pv, S['ControlPoints'], a, u, b, v)) for b, v in vs] for a, u in us]
        step = max(dist(G[i][j], G[i + di][j + dj]) for i in range(len(G) - 1) for j in range(len(G[0]) - 1) for di, dj in ((0, 1), (1, 0)))
        E.le('no point of the surface is much closer', dist(E.ok('NurbsSurface::GetPointOnSurface', S, q).ret, X), min(dist(x, X) for r in G for x in r) + 0.5 * step)
    else:
        S, ku, kv = patch(E, pu, mu, pv, mv, 'flat', 0.3)
        u, v = (k.v[0] + frac(E, x, 0.2, 0.8) * (k.v[-1] - k.v[0]) for k, x in ((ku, 'f'), (kv, 'g')))
        a, b = where(ku, pu, u), where(kv, pv, v)
        W = [[spec.surface(ku, pu, kv, pv, S['ControlPoints'], a, u, b, v, i, j) for j in range(2)] for i in range(2)]
        R = spec.ratders2(W)
        n = cross(R[1][0], R[0][1])
        n = vmul(n, dot(n, n) ** -.5)
        h = E.real('h', -0.4, 0.4)
        E.assume(1e-2 < abs(h) <= 0.4)
        E.eq('signed distance along the normal', E.ok('NurbsSurface::ComputeSignedDistanceFunction', S, vadd(R[0][0], vmul(n, h))).ret, h, 2e-3)


@contract('invvol', ['NurbsVolume::GetParamOnVolume', 'NurbsVolume::GetPointOnVolume'], [{'s': s, 'l': l} for s in range(3) for l in ('in', 'edge')], trials=2, native_only=True, noconf=True, nat_budget=20)
def invvol(E, c):
    ps, ms = [((1, 1, 1), ([2, 2], [2, 2], [2, 2])), ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 3])), ((2, 2, 1), ([3, 1, 3], [3, 3], [2, 2]))][c['s']]
    V, ks, _, _ = draw_volume(E, ps, ms, ((), (), ()))
    V['ControlPoints'] = [[[tuple(w * (2.0 * n + 0.15 * x / (1 + abs(x))) for n, x in zip((i, j, k), spec.proj(P))) + (w,) for k, P in enumerate(r) for w in [P[3]]] for j, r in enumerate(q)] for i, q in enumerate(V['ControlPoints'])]
    fs = [frac(E, 'f%d' % i, 0.05, 0.95) for i in range(3)]
    if c['l'] == 'edge':
        fs = [fs[0], 1.0, 0.0]
    t = [k.v[-1] if f == 1.0 else k.v[0] + f * (k.v[-1] - k.v[0]) for k, f in zip(ks, fs)]
    a = []
    for k, p, x in zip(ks, ps, t):
        a += [where(k, p, x), x]
    X = spec.proj(spec.volume(ks[0], ps[0], ks[1], ps[1], ks[2], ps[2], V['ControlPoints'], *a))
    q = E.ok('NurbsVolume::GetParamOnVolume', V, X).ret
    for k, x, nm in zip(ks, q, 'uvw'):
        inside(E, nm, x, k.v[0], k.v[-1])
    q = tuple(min(max(x, k.v[0]), k.v[-1]) for k, x in zip(ks, q))
    E.le('the volume has the point at the parameters', dist(E.ok('NurbsVolume::GetPointOnVolume', V, q).ret, X), 1e-3)


@contract('uvtangent', ['NurbsSurface::GetUVTangent'], c_geo, trials=8, summaries='gpz', note='Su and Sv independent')
def uvtangent(E, c):
    D, R = rat(E, c, 1)
    Su, Sv = R[1][0], R[0][1]
    if not E.sym:
        n = cross(Su, Sv)
        E.assume(dot(n, n) > 1e-2)
    T = E.point('T')
    r = E.ok('NurbsSurface::GetUVTangent', D[0], (D[3], D[4]), T, None)
    E.check('found', r.ret is True or r.ret == 1)
    a, b = r.out[0]
    rest = vsub(T, vadd(vmul(Su, a), vmul(Sv, b)))
    E.eq('what is left of the vector is normal to Su', dot(rest, Su), 0 * dot(Su, Su), 1e-5)
    E.eq('what is left of the vector is normal to Sv', dot(rest, Sv), 0 * dot(Su, Su), 1e-5)


@contract('canderiv', ['NurbsCurve::CanComputeDerivative'], [{'p': p, 'k': k} for p in (1, 2, 3) for k in (0, 1, 2)], trials=6, native_only=True,
          note='one inner knot of multiplicity p with a kink of more than 1e-3 there, and the two ends; smooth inner points are not claimed (finite differences)')
def canderiv(E, c):
    p, k = c['p'], c['k']
    C, kv, _, _ = draw_curve(E, p, [p + 1, p, p + 1])
    from .quad import tame
    tame(C)
    C['ControlPoints'] = [tuple(x / P[3] for x in P[:3]) + (1.0,) for P in C['ControlPoints']]
    P = C['ControlPoints']
    R = reaches(kv, p)
    u = [kv.v[i] for i in range(len(kv.v)) if i == 0 or kv.r[i] != kv.r[i - 1]][k]
    if k == 1:
        a, b = (spec.curve(kv, p, P, R[j][2], u, 1) for j in (0, 1))
        E.assume(max(abs(x - y) for x, y in zip(a, b)) > 1e-2 * (1 + max(abs(x) for x in a + b)))
    E.check('no derivative at a kink, one at the ends', bool(E.ok('NurbsCurve::CanComputeDerivative', C, u).ret) == (k != 1))
