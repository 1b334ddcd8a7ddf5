"""C24: constructed surfaces (bilinear, cylinder, ruled, revolved, translational sweep, Coons, loft, Gordon, sweep)."""
from .base import *
from .geo import one, generic, comb3, gram, bez_spans
from .sedit import mirrored
import spec
import math
from spec import KV, vadd, vsub, vmul, dot, cross
from fractions import Fraction


def net_ok(E, name, S, pu, ku, pv, kv):
    E.check(name + ': degrees', S['DegreeU'] == pu and S['DegreeV'] == pv)
    E.eq(name + ': u knots', S['KnotVectorU'], ku.v)
    E.eq(name + ': v knots', S['KnotVectorV'], kv.v)
    n, m = len(ku.v) - pu - 1, len(kv.v) - pv - 1
    P = S['ControlPoints']
    if len(P) != n or any(len(r) != m for r in P):
        E.fail(name + ': control net size', '%dx%s, expected %dx%d' % (len(P), sorted({len(r) for r in P}), n, m))


def cells(E, name, ku, pu, kv, pv):
    for i in ku.spans(pu):
        u = E.interior('%s.u%d' % (name, i), ku.v[i], ku.v[i + 1])
        for j in kv.spans(pv):
            yield i, u, j, E.interior('%s.v%d' % (name, j), kv.v[j], kv.v[j + 1])


def unit_kv(E, p):
    z, o = 0 * one(E), one(E)
    return KV([z] * (p + 1) + [o] * (p + 1), [0] * (p + 1) + [100] * (p + 1))


@contract('sbilinear', ['NurbsSurface::CreateBilinearSurface'], trials=6)
def sbilinear(E, c):
    tl, tr, bl, br = (E.point(n) for n in 'abcd')
    S = E.ok('NurbsSurface::CreateBilinearSurface', tl, tr, bl, br, None).out[0]
    p, q = S['DegreeU'], S['DegreeV']
    ku, kv = unit_kv(E, p), unit_kv(E, q)
    net_ok(E, 'bilinear patch', S, p, ku, q, kv)
    for i, u, j, v in cells(E, 'b', ku, p, kv, q):
        E.eq('bilinear combination of the corners', spec.proj(spec.surface(ku, p, kv, q, S['ControlPoints'], i, u, j, v)), comb3(E, ((1 - u) * (1 - v), tl), ((1 - u) * v, tr), (u * (1 - v), bl), (u * v, br)))


def rank_kv(E, kn):
    f = lambda x: float(x) if not E.sym else x.a if hasattr(x, 'a') else x
    if not E.sym:       # knots that agree up to rounding are one knot
        r = [0]
        for a, b in zip(kn, kn[1:]):
            r.append(r[-1] + (100 if b - a > 1e-9 else 0))
        return KV(kn, r)
    d = sorted({f(x) for x in kn})
    return KV(kn, [100 * d.index(f(x)) for x in kn])


def sweep_angle(E, n, k):
    if E.sym:
        from terms import PI
        pi = PI
    else:
        pi = math.pi
    return pi * n / 2 if k == 'top' else E.between('th', pi * (n - 1) / 2 + (Fraction(1, 1000) if E.sym else 0.05), pi * n / 2)


@contract('scylinder', ['NurbsSurface::CreateCylindricalSurface'], lambda tier, lits: [{'n': n, 'k': k} for n in (1, 2, 3, 4) for k in ('free', 'top')], summaries='gpz', trials=8, budget=60,
          note='orthogonal axes of any length; sweep angles of each quarter class')
def scylinder(E, c):
    n = c['n']
    o, X = E.point('o'), E.point('X')
    y = E.point('y')
    Y = cross(X, y)
    a = E.angle('a')
    r, h = E.pos('r'), E.pos('h')
    th = sweep_angle(E, n, c['k'])
    if E.sym:
        t4 = Fraction(4, 10 ** 6)
        E.assume(E.gt0(r - t4 * (1 + r)))
        E.assume(E.gt0(h - t4 * (1 + h)))
        E.assume(E.gt0(th - t4 * (1 + E.max(E.abs(a + th), E.abs(a)))))
    else:
        E.assume(dot(X, X) > 0.1 and dot(Y, Y) > 0.1)
    ux, uy = vmul(X, 1 / E.sqrt(dot(X, X))), vmul(Y, 1 / E.sqrt(dot(Y, Y)))
    if E.sym:
        tg = [vadd(vmul(ux, -r * E.sin(a + th * i / n)), vmul(uy, r * E.cos(a + th * i / n))) for i in range(n + 1)]
        for p, q in zip(tg, tg[1:]):
            gram(E, p, q)
    res = E.ok('NurbsSurface::CreateCylindricalSurface', o, X, Y, a, a + th, r, h, None)
    E.check('the cylinder is created', bool(res.ret))
    S = res.out[0]
    pu, pv = S['DegreeU'], S['DegreeV']
    ku, kv = rank_kv(E, S['KnotVectorU']), rank_kv(E, S['KnotVectorV'])
    net_ok(E, 'cylinder', S, pu, ku, pv, kv)
    ax = cross(ux, uy)
    co, si = (E.cos, E.sin) if E.sym else (math.cos, math.sin)

    def coords(q):
        q = vsub(q, o)
        return dot(q, ux), dot(q, uy), dot(q, ax)
    P = S['ControlPoints']
    E.eq('corner (0,0): start angle at full height', coords(spec.proj(P[0][0])), (r * co(a), r * si(a), h), 1e-5)
    E.eq('corner (1,0): start angle at the base', coords(spec.proj(P[-1][0])), (r * co(a), r * si(a), 0 * r), 1e-5)
    E.eq('corner (0,1): end angle at full height', coords(spec.proj(P[0][-1])), (r * co(a + th), r * si(a + th), h), 1e-5)
    E.eq('corner (1,1): end angle at the base', coords(spec.proj(P[-1][-1])), (r * co(a + th), r * si(a + th), 0 * r), 1e-5)
    for i, u, j, v in cells(E, 'y', ku, pu, kv, pv):
        x, yy, z = coords(spec.proj(spec.surface(ku, pu, kv, pv, P, i, u, j, v)))
        E.eq('every point has the radius', x * x + yy * yy, r * r, 1e-5)
        E.eq('height falls linearly with u', z, (1 - u) * h, 1e-5)


def _expand(vals, cnt):
    return [v for v, k in zip(vals, cnt) for _ in range(k)]


def joint_kv(E, name, pats):
    """knot vectors over one joint set of distinct values; pats[k] multiplicities of value k in each vector"""
    v = E.chain(['%s%d' % (name, i) for i in range(len(pats))])
    out = []
    for a in range(len(pats[0])):
        m = [x[a] for x in pats]
        out.append(KV(_expand(v, m), _expand([100 * i for i in range(len(v))], m)))
    return out


C_RULED = [(1, 1, [(2, 2), (2, 2)]), (2, 2, [(3, 3), (3, 3)]), (1, 1, [(2, 2), (1, 0), (0, 1), (2, 2)]), (2, 1, [(3, 2), (3, 2)]), (1, 3, [(2, 4), (2, 4)]), (2, 2, [(3, 3), (1, 1), (3, 3)]), (2, 2, [(3, 3), (1, 0), (3, 3)]), (2, 2, [(3, 3), (0, 1), (3, 3)]),
           (2, 2, [(3, 3), (2, 1), (0, 1), (3, 3)]), (2, 3, [(3, 4), (1, 0), (0, 1), (3, 4)]), (3, 2, [(4, 3), (1, 1), (4, 3)]), (3, 2, [(4, 3), (2, 1), (0, 2), (4, 3)]), (1, 2, [(2, 3), (1, 2), (2, 3)])]


def elevated(kv, t):
    k2 = kv
    for r in kv.distinct():
        k2 = k2.insert(kv.v[kv.r.index(r)], r, t)
    return k2


def union(ks):
    out = ks[0]
    for k in ks[1:]:
        for r in k.distinct():
            d = k.mult(r) - out.mult(r)
            if d > 0:
                out = out.insert(k.v[k.r.index(r)], r, d)
    return out


@contract('sruled', ['NurbsSurface::CreateRuledSurface'], [{'p': p, 'q': q, 'pat': x} for p, q, x in C_RULED], trials=6)
def sruled(E, c):
    p, q = c['p'], c['q']
    k0, k1 = joint_kv(E, 't', c['pat'])
    C = [{'Degree': d, 'KnotVector': k.v, 'ControlPoints': E.wpoints('P%d' % i, len(k.v) - d - 1)} for i, (d, k) in enumerate(((p, k0), (q, k1)))]
    S = E.ok('NurbsSurface::CreateRuledSurface', C[0], C[1], None).out[0]
    D = max(p, q)
    ku = union([elevated(k0, D - p), elevated(k1, D - q)])
    kv = unit_kv(E, 1)
    net_ok(E, 'ruled surface', S, D, ku, 1, kv)
    for i, u, j, v in cells(E, 'r', ku, D, kv, 1):
        a = spec.curve(k0, p, C[0]['ControlPoints'], span_at(k0, p, ku.r[i]), u)
        b = spec.curve(k1, q, C[1]['ControlPoints'], span_at(k1, q, ku.r[i]), u)
        E.eq('ruling between the two curves', spec.surface(ku, D, kv, 1, S['ControlPoints'], i, u, j, v), vadd(vmul(a, 1 - v), vmul(b, v)), 1e-5)


@contract('srevolved', ['NurbsSurface::CreateRevolvedSurface'], lambda tier, lits: [{'n': n, 'k': k, 'p': p, 'on': on} for n in (1, 2, 3, 4) for k in ('free', 'top') for p, on in ((1, ()), (2, ()), (2, (0,)), (1, (1,)))], summaries='gpz', trials=8, budget=60,
          note='axis of any length, profile points on and off the axis, sweep angles of each quarter class')
def srevolved(E, c):
    n, p = c['n'], c['p']
    o, A = E.point('o'), E.point('A')
    kv = E.knotvec('t', c['m'], [])[0] if 'm' in c else unit_kv(E, p)
    P = E.wpoints('P', len(kv.v) - p - 1)
    s = [E.real('s%d' % i) for i in c['on']]
    for i, t in zip(c['on'], s):
        w = P[i][3]
        P[i] = vmul(vadd(o, vmul(A, t)), w) + (w,)
    th = sweep_angle(E, n, c['k'])
    nA = E.sqrt(dot(A, A))
    ax = vmul(A, 1 / nA)

    def rad(q):
        q = vsub(q, o)
        return vsub(q, vmul(ax, dot(q, ax)))
    if E.sym:
        E.assume(E.gt0(th - Fraction(4, 10 ** 6)))
        E.root(one(E))      # a normalised vector has length one
        for i in range(len(P)):
            if i not in c['on']:
                X = rad(spec.proj(P[i]))
                Y = cross(ax, X)
                E.hint(dot(X, X))
                tg = [vadd(vmul(X, -E.sin(th * k / n)), vmul(Y, E.cos(th * k / n))) for k in range(n + 1)]
                for a, b in zip(tg, tg[1:]):
                    gram(E, a, b)
    else:
        E.assume(dot(A, A) > 0.1)
        for i in range(len(P)):
            if i not in c['on']:
                X = rad(spec.proj(P[i]))
                E.assume(dot(X, X) > 0.01)
    prof = {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': P}
    res = E.ok('NurbsSurface::CreateRevolvedSurface', o, A, th, prof, None)
    E.check('the surface is created', bool(res.ret))
    S = res.out[0]
    ku = rank_kv(E, S['KnotVectorU'])
    E.check('parameter range of the rotation is [0,1]', ku.v[0] == 0 and ku.v[-1] == 1)
    net_ok(E, 'revolved surface', S, 2, ku, p, kv)
    Q = S['ControlPoints']
    E.eq('u = 0 is the profile', Q[0], P, 1e-5)
    co, si = (E.cos, E.sin) if E.sym else (math.cos, math.sin)
    for j in range(len(P)):
        x = spec.proj(P[j])
        R = rad(x)
        img = vadd(vsub(x, R), vadd(vmul(R, co(th)), vmul(cross(ax, R), si(th))))
        E.eq('u = 1 is the profile rotated by the angle', Q[-1][j], vmul(img, P[j][3]) + (P[j][3],), 1e-5)
    tot, last = 0.0, None
    for i, u, j, v in cells(E, 'r', ku, 2, kv, p):
        a = spec.proj(spec.surface(ku, 2, kv, p, Q, i, u, j, v))
        b = spec.proj(spec.curve(kv, p, P, j, v))
        ra, rb = rad(a), rad(b)
        E.eq('distance from the axis is that of the profile', dot(ra, ra), dot(rb, rb), 1e-5)
        E.eq('position along the axis is that of the profile', dot(vsub(a, b), ax), 0 * nA, 1e-5)
    if not E.sym:
        v = E.interior('vv', kv.v[p], kv.v[p + 1])
        b = rad(spec.proj(spec.curve(kv, p, P, p, v)))
        if dot(b, b) > 1e-4:
            last = 0.0
            for k in range(1, 33):
                u = k / 32
                i = max(t for t in range(len(ku.v)) if ku.v[t] <= u and t < len(Q))
                a = rad(spec.proj(spec.surface(ku, 2, kv, p, Q, i, u, p, v)))
                g = math.atan2(dot(cross(b, a), ax), dot(a, b))
                d = (g - last + math.pi) % (2 * math.pi) - math.pi
                E.check('the rotation runs forward', d > -1e-7)
                tot += d
                last = g
            E.eq('swept angle', tot, th, 1e-5)


@contract('stranssweep', ['NurbsSurface::CreateGeneralizedTranslationalSweepSurface'], lambda tier, lits: [{'pu': a, 'mu': b, 'pv': d, 'mv': e} for a, b, d, e in ((1, [2, 2], 1, [2, 2]), (2, [3, 1, 3], 1, [2, 1, 2]), (1, [2, 1, 2], 3, [4, 4]), (3, [4, 2, 4], 2, [3, 1, 1, 3]))], trials=5)
def stranssweep(E, c):
    C, ku, _, _ = draw_curve(E, c['pu'], c['mu'], name='p')
    T, kv, _, _ = draw_curve(E, c['pv'], c['mv'], name='q')
    S = E.ok('NurbsSurface::CreateGeneralizedTranslationalSweepSurface', C, T, None).out[0]
    net_ok(E, 'translational sweep', S, c['pu'], ku, c['pv'], kv)
    for i, u, j, v in cells(E, 's', ku, c['pu'], kv, c['pv']):
        a = spec.proj(spec.curve(ku, c['pu'], C['ControlPoints'], i, u))
        b = spec.proj(spec.curve(kv, c['pv'], T['ControlPoints'], j, v))
        E.eq('S(u,v) = C(u) + T(v)', spec.proj(spec.surface(ku, c['pu'], kv, c['pv'], S['ControlPoints'], i, u, j, v)), vadd(a, b), 1e-5)


@contract('snuscale', ['NurbsSurface::NonUniformScaling'], [{'n': n, 'm': m, 'ref': r} for n, m in ((2, 2), (3, 2), (2, 4)) for r in (0, 1)], summaries='gpz', trials=6)
def snuscale(E, c):
    P = E.wnet('P', c['n'], c['m'])
    f = [E.real('f%d' % i) for i in range(3)]
    z = 0 * one(E)
    ref = E.point('r') if c['ref'] else (z, z, z)
    R = E.ok('NurbsSurface::NonUniformScaling', P, f[0], f[1], f[2], ref).ret
    E.check('net size', len(R) == c['n'] and all(len(r) == c['m'] for r in R))
    for i in range(c['n']):
        for j in range(c['m']):
            x = spec.proj(P[i][j])
            w = P[i][j][3]
            E.eq('weight is kept', R[i][j][3], w)
            E.eq('every Cartesian point is scaled about the reference point', spec.proj(R[i][j]), tuple(r + k * (a - r) for a, k, r in zip(x, f, ref)), 1e-5)


def unit_curve(E, name, p, ks, m, ends):
    """curve on [0,1] with rational interior knots, end weights one and given end points"""
    v = [0 * one(E)] + [Fraction(k) if E.sym else float(k) for k in ks] + [one(E)]
    kv = KV(_expand(v, m), _expand([100 * i for i in range(len(v))], m))
    n = len(kv.v) - p - 1
    P = E.wpoints(name, n)
    P[0] = tuple(ends[0]) + (one(E),)
    P[-1] = tuple(ends[1]) + (one(E),)
    return {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': P}, kv


C_COONS = [[(1, [], [2, 2])] * 4, [(2, [], [3, 3]), (1, [], [2, 2]), (3, [], [4, 4]), (2, [], [3, 3])],
           [(2, ['1/3'], [3, 1, 3]), (1, ['1/2'], [2, 1, 2]), (2, [], [3, 3]), (3, ['1/4'], [4, 2, 4])],
           [(3, ['1/3', '1/2'], [4, 1, 1, 4]), (4, [], [5, 5]), (3, ['2/3'], [4, 1, 4]), (1, ['1/5'], [2, 1, 2])],
           [(2, ['1/4', '1/2'], [3, 2, 1, 3]), (2, ['1/3'], [3, 1, 3]), (2, ['1/2'], [3, 2, 3]), (2, ['2/3'], [3, 1, 3])]]


@contract('scoons', ['NurbsSurface::CreateCoonsSurface'], [{'c': [list(x) for x in y]} for y in C_COONS], summaries='gpz', trials=6, budget=60,
          note='four curves running once around the boundary (left down, bottom, right up, top back), end weights one, listed knot patterns on [0,1]')
def scoons(E, c):
    A, B, Cc, D = (E.point(n) for n in 'ABCD')   # top left, bottom left, bottom right, top right
    ends = [(A, B), (B, Cc), (Cc, D), (D, A)]
    cs = []
    for k, ((p, ks, m), e) in enumerate(zip(c['c'], ends)):
        ks = [Fraction(x) for x in ks]
        cs.append(unit_curve(E, 'P%d' % k, p, ks, m, e) + (p,))
    S = E.ok('NurbsSurface::CreateCoonsSurface', *[x[0] for x in cs], None).out[0]
    pu, pv = S['DegreeU'], S['DegreeV']
    ku, kv = rank_kv(E, S['KnotVectorU']), rank_kv(E, S['KnotVectorV'])
    net_ok(E, 'Coons patch', S, pu, ku, pv, kv)
    Q = S['ControlPoints']
    z, o = 0 * one(E), one(E)

    def on(C, k, p, t, i, kk):
        # value of curve C at t, a point of span i of kk (ranks by value)
        f = lambda x: float(x) if not E.sym else x.a if hasattr(x, 'a') else x
        lo = f(kk.v[i]) + (0 if E.sym else 1e-9)
        s = max(j for j in range(len(k.v) - p - 1) if f(k.v[j]) <= lo)
        return spec.curve(k, p, C['ControlPoints'], s, t)

    def rev(C, k):
        return dict(C, ControlPoints=list(reversed(C['ControlPoints']))), KV([1 - x for x in reversed(k.v)], [max(k.r) - x for x in reversed(k.r)])
    L, Bo, R, T = cs
    Lr, kL = rev(L[0], L[1])
    Tr, kT = rev(T[0], T[1])
    for i in ku.spans(pu):
        u = E.interior('k.u%d' % i, ku.v[i], ku.v[i + 1])
        E.eq('v = 0 is the left curve (upwards)', spec.proj(spec.surface(ku, pu, kv, pv, Q, i, u, pv, z)), spec.proj(on(Lr, kL, L[2], u, i, ku)), 1e-5)
        E.eq('v = 1 is the right curve (upwards)', spec.proj(spec.surface(ku, pu, kv, pv, Q, i, u, len(kv.v) - pv - 2, o)), spec.proj(on(R[0], R[1], R[2], u, i, ku)), 1e-5)
    for j in kv.spans(pv):
        v = E.interior('k.v%d' % j, kv.v[j], kv.v[j + 1])
        E.eq('u = 0 is the bottom curve', spec.proj(spec.surface(ku, pu, kv, pv, Q, pu, z, j, v)), spec.proj(on(Bo[0], Bo[1], Bo[2], v, j, kv)), 1e-5)
        E.eq('u = 1 is the top curve (left to right)', spec.proj(spec.surface(ku, pu, kv, pv, Q, len(ku.v) - pu - 2, o, j, v)), spec.proj(on(Tr, kT, T[2], v, j, kv)), 1e-5)


# ---------------------------------------------------------------- lofting, Gordon, sweeping
def check_sections(E, name, S, ku, D, secs, vl):
    """the surface contains section k at v = vl[k]; secs: (curve, kv, degree)"""
    for k, (C, kk, p) in enumerate(secs):
        I = E.ok('NurbsSurface::GetIsoCurve', S, vl[k], True).ret
        wellformed_curve(E, name, I, D, ku)
        for i in ku.spans(D):
            u = E.interior('%s.u%d' % (name[:4], i), ku.v[i], ku.v[i + 1])
            a = spec.curve(ku, D, I['ControlPoints'], i, u)
            b = spec.curve(kk, p, C['ControlPoints'], span_at(kk, p, ku.r[i]), u)
            if not E.sym:
                E.assume(a[3] > 0.05)
            E.eq('%s: section %d lies on the surface (span %d)' % (name, k, i), spec.proj(a), spec.proj(b), 1e-4)


C_LOFT = [(1, [1, 1], [[2, 2], [2, 2]]), (1, [1, 1, 1], [[2, 2, 2], [1, 1, 1], [2, 2, 2]]), (2, [2, 2, 2], [[3, 3, 3], [3, 3, 3]]), (2, [2, 1, 2], [[3, 2, 3], [3, 2, 3]]),
          (1, [1, 1, 1], [[2, 2, 2], [1, 0, 0], [0, 0, 1], [2, 2, 2]]), (2, [2, 2, 2, 2], [[3, 3, 3, 3], [1, 0, 0, 1], [3, 3, 3, 3]]), (2, [2, 1, 1], [[3, 2, 2], [1, 1, 0], [3, 2, 2]]), (3, [1, 3, 2, 1], [[2, 4, 3, 2], [2, 4, 3, 2]])]


@contract('sloft', ['NurbsSurface::CreateLoftSurface'], [{'q': q, 'ps': ps, 'pat': pat} for q, ps, pat in C_LOFT], summaries='interp', trials=4, budget=60, note='sections at given parameters')
def sloft(E, c):
    ps = c['ps']
    K = len(ps)
    ks = joint_kv(E, 't', c['pat'])
    secs = [({'Degree': p, 'KnotVector': k.v, 'ControlPoints': E.wpoints('P%d_' % i, len(k.v) - p - 1)}, k, p) for i, (p, k) in enumerate(zip(ps, ks))]
    vl = E.chain([0] + ['v%d' % i for i in range(1, K - 1)] + [1])
    q = c['q']
    S = E.ok('NurbsSurface::CreateLoftSurface', [s[0] for s in secs], None, q, vl).out[0]
    D = max(ps)
    ku = union([elevated(k, D - p) for k, p in zip(ks, ps)])
    E.check('degrees', S['DegreeU'] == D and S['DegreeV'] == q)
    E.eq('u knots', S['KnotVectorU'], ku.v)
    P = S['ControlPoints']
    if len(P) != len(ku.v) - D - 1 or any(len(r) != len(S['KnotVectorV']) - q - 1 for r in P):
        E.fail('net size')
    check_sections(E, 'loft', S, ku, D, secs, vl)


@contract('sloftchord', ['NurbsSurface::CreateLoftSurface'], [{'ps': ps, 'pat': pat, 'deg': d} for q, ps, pat in C_LOFT if len(ps) > max(ps) for d in (False, True)], native_only=True, trials=4, note='parameters spaced by the library (recovered from the averaged knots when there are as many interior knots as interior sections, otherwise first and last section only)')
def sloftchord(E, c):
    ps = c['ps']
    K = len(ps)
    ks = joint_kv(E, 't', c['pat'])
    secs = []
    for i, (p, k) in enumerate(zip(ps, ks)):
        cps = E.wpoints('P%d_' % i, len(k.v) - p - 1)
        cps = [vadd(x, (0.0, 0.0, 4.0 * i * x[3], 0.0)) for x in cps]
        if c['deg']:
            cps[0] = (0.5, 0.25, 0.0, 1.0)                # one control point common to all sections
        secs.append(({'Degree': p, 'KnotVector': k.v, 'ControlPoints': cps}, k, p))
    S = E.ok('NurbsSurface::CreateLoftSurface', [s[0] for s in secs], None, 0, []).out[0]
    D = max(ps)
    ku = union([elevated(k, D - p) for k, p in zip(ks, ps)])
    E.check('degrees', S['DegreeU'] == D and S['DegreeV'] == D)
    E.eq('u knots', S['KnotVectorU'], ku.v)
    kv = S['KnotVectorV']
    E.check('finite knots', all(x == x for x in kv))
    if D == 1:
        vl = [kv[i + 1] for i in range(K)]
        check_sections(E, 'loft', S, ku, D, secs, vl)
    else:
        check_sections(E, 'loft', S, ku, D, [secs[0], secs[-1]], [kv[0], kv[-1]])


@contract('gordon', ['NurbsSurface::CreateGordonSurface'], [{'p': p, 'n': n, 'm': m} for p, n, m in ((1, 2, 2), (1, 2, 3), (1, 3, 2), (2, 3, 3), (2, 3, 4), (2, 4, 3), (3, 4, 4), (3, 4, 5))], native_only=True, trials=3, note='networks of translated curves of one degree, consistently parametrised by chord length')
def gordon(E, c):
    p, n, m = c['p'], c['n'], c['m']            # n u-curves, m v-curves
    X = [(float(j) + 0.3 * E.real('x%d' % j, -1, 1), E.real('y%d' % j), E.real('z%d' % j)) for j in range(m)]
    Y = [(0.3 * E.real('a%d' % i, -1, 1), E.real('b%d' % i), 3.0 * i + 0.5 * E.real('e%d' % i, -1, 1)) for i in range(n)]

    def curve(pts):
        return E.ok('NurbsCurve::GlobalInterpolation|LN_NurbsCurve &, const vector<double> &', p, pts, None, []).out[0]
    grid = [[vadd(Y[i], X[j]) for j in range(m)] for i in range(n)]
    U = [curve(grid[i]) for i in range(n)]
    V = [curve([grid[i][j] for i in range(n)]) for j in range(m)]
    S = E.ok('NurbsSurface::CreateGordonSurface', U, V, grid, None).out[0]
    up = E.ok('Interpolation::GetChordParameterization', X).ret
    vp = E.ok('Interpolation::GetChordParameterization', Y).ret
    ts = sorted({E.between('s%d' % k, 0.0, 1.0) for k in range(4)} | {0.0, 1.0})
    for i in range(n):
        for t in ts:
            E.eq('u-curve %d lies on the surface' % i, E.ok('NurbsSurface::GetPointOnSurface', S, (t, vp[i])).ret, E.ok('NurbsCurve::GetPointOnCurve', U[i], t).ret, 1e-4)
    for j in range(m):
        for t in ts:
            E.eq('v-curve %d lies on the surface' % j, E.ok('NurbsSurface::GetPointOnSurface', S, (up[j], t)).ret, E.ok('NurbsCurve::GetPointOnCurve', V[j], t).ret, 1e-4)


def closed_curve(E, name, p, k):
    """smoothly closed non-rational curve: an unclamped periodic one, clamped by interpolation of its Bezier form (quadratic, midpoint knots)"""
    pts = [(2.0 * math.cos(2 * math.pi * i / k) + 0.3 * E.real('%sx%d' % (name, i), -1, 1), 2.0 * math.sin(2 * math.pi * i / k) + 0.3 * E.real('%sy%d' % (name, i), -1, 1), 0.5 * E.real('%sz%d' % (name, i), -1, 1)) for i in range(k)]
    mid = [vmul(vadd(pts[i], pts[(i + 1) % k]), 0.5) for i in range(k)]
    cps = [mid[-1]]
    for i in range(k):
        cps += [pts[i], mid[i]]
    kn = [0.0] * 3 + [float(i) for i in range(1, k) for _ in range(2)] + [float(k)] * 3
    return {'Degree': 2, 'KnotVector': kn, 'ControlPoints': [x + (1.0,) for x in cps]}


@contract('pnormal', ['NurbsCurve::ProjectNormal'], [{'k': 'open', 'p': p, 'm': m} for p in (1, 2, 3) for m in knot_shapes(p)[:4]] + [{'k': 'closed', 'n': n} for n in (4, 5, 8)], native_only=True, noconf=True, trials=5)
def pnormal(E, c):
    if c['k'] == 'open':
        C, kv, _, _ = draw_curve(E, c['p'], c['m'])
    else:
        C = closed_curve(E, 'P', 2, c['n'])
    for k in C['KnotVector']:
        d = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', C, 1, k).ret[1]
        E.assume(dot(d, d) > 1e-2)
    B = E.ok('NurbsCurve::ProjectNormal', C).ret
    E.check('one normal per knot', len(B) == len(C['KnotVector']))
    for i, k in enumerate(C['KnotVector']):
        d = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', C, 1, k).ret[1]
        E.eq('normal %d perpendicular to the tangent' % i, dot(B[i], d) / E.sqrt(dot(d, d)), 0.0, 1e-5)
        E.eq('normal %d is a unit vector' % i, dot(B[i], B[i]), 1.0, 1e-5)
    if c['k'] == 'closed':
        E.eq('frame of a closed curve closes', B[0], B[-1], 1e-6)


@contract('ssweep', ['NurbsSurface::CreateSweepSurface'], [{'p': p, 'mp': mp, 't': t, 'mt': mt, 'k': k} for p, mp in ((1, [2, 2]), (2, [3, 1, 3])) for t, mt in ((1, [2, 2]), (2, [3, 3]), (2, [3, 1, 3]), (3, [4, 4])) for k in (3, 5, 8)] + [{'p': 2, 'mp': [3, 1, 3], 't': t, 'mt': mt, 'k': k, 'd': 2} for t, mt in ((1, [2, 2]), (2, [3, 3]), (3, [4, 4])) for k in (3, 5)], native_only=True, noconf=True, trials=3, note='first and last section')
def ssweep(E, c):
    P, kp, _, _ = draw_curve(E, c['p'], c['mp'], name='p')
    P = dict(P, ControlPoints=[(x[0], x[1], 0.0, x[3]) for x in P['ControlPoints']])
    T, kt, _, _ = draw_curve(E, c['t'], c['mt'], name='q', rational=True)
    T = dict(T, ControlPoints=[vadd(x, (0.0, 0.0, 5.0 * i * x[3], 0.0)) for i, x in enumerate(T['ControlPoints'])])
    for k in T['KnotVector']:
        d = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', T, 1, k).ret[1]
        E.assume(dot(d, d) > 1e-2)
    if 'd' in c:
        S = E.ok('NurbsSurface::CreateSweepSurface|LN_NurbsCurve &, int, int, LN_NurbsSurface &', P, T, c['k'], c['d'], None).out[0]
        E.check('sweep has the requested degree', S['DegreeV'] == c['d'])
    else:
        S = E.ok('NurbsSurface::CreateSweepSurface|LN_NurbsCurve &, int, LN_NurbsSurface &', P, T, c['k'], None).out[0]
    kv = S['KnotVectorV']
    E.check('sweep knots ascend', all(a <= b for a, b in zip(kv, kv[1:])))
    E.check('profile degree and knots kept', S['DegreeU'] == c['p'] and S['KnotVectorU'] == P['KnotVector'])
    for v, t in ((kv[0], kt.v[0]), (kv[-1], kt.v[-1])):
        D = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', T, 1, t).ret
        z = vmul(D[1], 1 / E.sqrt(dot(D[1], D[1])))
        pr = []
        for i in kp.spans(c['p']):
            u = E.between('u%d' % i, kp.v[i], kp.v[i + 1])
            a = vsub(E.ok('NurbsSurface::GetPointOnSurface', S, (u, v)).ret, D[0])
            b = E.ok('NurbsCurve::GetPointOnCurve', P, u).ret
            E.eq('end section perpendicular to the trajectory', dot(a, z), 0.0, 1e-4)
            E.eq('end section as far from the trajectory as the profile from its origin', dot(a, a), dot(b, b), 1e-4)
            pr.append((a, b))
        for (a, b), (a2, b2) in zip(pr, pr[1:]):
            E.eq('end section congruent to the profile', dot(a, a2), dot(b, b2), 1e-4)
            E.eq('end section oriented like the profile', dot(cross(a, a2), z), cross(b, b2)[2], 1e-4)
