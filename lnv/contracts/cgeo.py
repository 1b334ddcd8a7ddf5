"""C05 (curvature, normal, torsion), C13, C14: cutting, joining and reparametrising curves; C22: knot vector utilities."""
from .base import *
from .curve import c_geo
from .sedit import mirrored, mirror_of
from .vec import M, mk, app
import spec
from spec import KV
from fractions import Fraction


def _ders(E, c, d):
    p = c['p']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    if c.get('unit'):
        # start of a clamped curve with |C'(u)| = 1: C'(a) = p/(b-a) w1/w0 (P1-P0)
        P = C['ControlPoints']
        k = (kv.v[p + 1] - kv.v[p]) / p
        w0, w1 = P[0][3], P[1][3]
        dr = (Fraction(3, 5), 0, Fraction(-4, 5)) if E.sym else (0.6, 0.0, -0.8)
        x = spec.proj(P[0])
        P[1] = tuple((x[i] + k * w0 / w1 * dr[i]) * w1 for i in range(3)) + (w1,)
    sp = at(kv, p, c['loc'], r)
    H = [spec.curve(kv, p, C['ControlPoints'], sp, u, k) if k <= p else (0, 0, 0, 0) for k in range(d + 1)]
    return C, u, spec.ratders(H)


def c_geou(tier, lits):
    out = c_geo(tier, lits)
    for p in (2, 3):
        for m in ([p + 1, p + 1], [p + 1, 1, p + 1]):
            out.append({'p': p, 'm': m, 'loc': ['knot', 0], 'unit': 1})
    return out


@contract('ccurv', ['NurbsCurve::Curvature'], c_geou, summaries='gpz', trials=8, note='generic position: C\' is not identically zero')
def ccurv(E, c):
    C, u, D = _ders(E, c, 2)
    v2 = spec.dot(D[1], D[1])
    x = spec.cross(D[1], D[2])
    if not E.sym:
        E.assume(v2 > 1e-3)
    got = E.ok('NurbsCurve::Curvature', C, u).ret
    if E.sym:
        E.eq("curvature^2 |C'|^6 = |C' x C''|^2", got * got * v2 * v2 * v2, spec.dot(x, x))
    else:
        E.eq("curvature = |C' x C''| / |C'|^3", got, spec.dot(x, x) ** 0.5 / v2 ** 1.5, 1e-5)


@contract('cnormal', ['NurbsCurve::Normal'], lambda tier, lits: [dict(c, kind=k) for c in c_geou(tier, lits) for k in (0, 1)], summaries='gpz', trials=8, note='generic position: curvature not identically zero')
def cnormal(E, c):
    C, u, D = _ders(E, c, 2)
    x = spec.cross(D[1], D[2])
    x2 = spec.dot(x, x)
    v2 = spec.dot(D[1], D[1])
    if not E.sym:
        E.assume(v2 > 1e-3 and x2 > 1e-3 and x2 > 1e-6 * v2 * spec.dot(D[2], D[2]))
    got = E.ok('NurbsCurve::Normal', C, c['kind'], u).ret
    E.eq('unit length', spec.dot(got, got), 1, 1e-5)
    if not E.sym:
        x = spec.vmul(x, 1 / x2 ** 0.5)
        D[1] = spec.vmul(D[1], 1 / v2 ** 0.5)
    if c['kind'] == 1:
        E.eq("binormal along C' x C''", spec.cross(got, x), (0, 0, 0), 1e-5)
        if not E.sym:
            E.le("binormal points along C' x C''", 0, spec.dot(got, x))
    else:
        n = spec.cross(x, D[1])
        E.eq("normal along (C' x C'') x C'", spec.cross(got, n), (0, 0, 0), 1e-5)
        if not E.sym:
            E.le('normal points to the centre of curvature', 0, spec.dot(got, n))


@contract('ctorsion', ['NurbsCurve::Torsion'], c_geou, summaries='gpz', trials=8, note='generic position: curvature not identically zero')
def ctorsion(E, c):
    C, u, D = _ders(E, c, 3)
    x = spec.cross(D[1], D[2])
    x2 = spec.dot(x, x)
    if not E.sym:
        E.assume(x2 > 1e-2 and spec.dot(D[1], D[1]) > 1e-2)
    got = E.ok('NurbsCurve::Torsion', C, u).ret
    if E.sym:
        E.eq("torsion |C' x C''|^2 = (C' x C'') . C'''", got * x2, spec.dot(x, D[3]))
    else:
        sc = (x2 * spec.dot(D[3], D[3])) ** 0.5 + x2
        E.eq("torsion |C' x C''|^2 = (C' x C'') . C''' (relative)", got * x2 / sc, spec.dot(x, D[3]) / sc, 1e-5)


# ------------------------------------------------------------------ C13
def c_split(tier, lits):
    out = []
    for p in pick(tier, (1, 2, 3), (1, 2, 3, 4, 5)):
        for m in knot_shapes(p, tier) + [[p + 1, p + 1, p + 1]]:
            for l in locs(m):
                out.append({'p': p, 'm': m, 'loc': list(l)})
    return out


def raised(kv, x, r, n):
    k = kv.mult(r)
    return kv.insert(x, r, max(0, n - k))


def cut(kv, p, r, x):
    """knot vectors of the two parts at the value x of rank r"""
    k = raised(kv, x, r, p + 1)
    i = k.r.index(r)
    return KV(k.v[:i + p + 1], k.r[:i + p + 1]), KV(k.v[i:], k.r[i:])


def piece(E, name, C, kv, p, R, kv2):
    same_curve(E, name, C, kv, p, R, kv2, p)


@contract('split', ['NurbsCurve::SplitAt'], c_split, trials=5)
def split(E, c):
    p = c['p']
    C, kv, (x,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    res = E.ok('NurbsCurve::SplitAt', C, x, None, None)
    end = c['loc'][0] == 'knot' and c['loc'][1] in (0, len(c['m']) - 1)
    E.check('splitting is possible exactly inside the domain', bool(res.ret) == (not end))
    if end:
        return
    kl, kr = cut(kv, p, r, x)
    piece(E, 'left part', C, kv, p, res.out[0], kl)
    piece(E, 'right part', C, kv, p, res.out[1], kr)


def c_extract(tier, lits):
    out = []
    for p in pick(tier, (1, 2, 3), (1, 2, 3, 4, 5)):
        for m in [[p + 1, p + 1], [p + 1, 1, p + 1], [p + 1, p, 1, p + 1]] if tier != 'big' else knot_shapes(p, tier)[:2]:
            L = locs(m)
            for i, a in enumerate(L):
                for b in L[i:]:
                    if a == b and a[0] == 'knot':
                        continue
                    out.append({'p': p, 'm': m, 'a': list(a), 'b': list(b)})
    return out


@contract('extract', ['NurbsCurve::Extract'], c_extract, trials=4)
def extract(E, c):
    p = c['p']
    C, kv, (x, y), (r, s) = draw_curve(E, p, c['m'], [c['a'], c['b']])
    res = E.ok('NurbsCurve::Extract', C, x, y, None)
    a0, a1 = r == 0, s == max(kv.r)
    k2 = kv if a0 else cut(kv, p, r, x)[1]
    k2 = k2 if a1 else cut(k2, p, s, y)[0]
    piece(E, 'extracted part', C, kv, p, res.out[0], k2)


def c_near(ops):
    def gen(tier, lits):
        return [{'p': p, 'm': m, 'k': k, 'd': d, 'op': op} for p in pick(tier, (1, 2, 3), (1, 2, 3, 4))
                for m in [[p + 1, 1, p + 1], [p + 1, 1, 1, p + 1], [p + 1, p, 1, p + 1], [p + 1, max(1, p - 1), p + 1]] for k in range(1, len(m) - 1) for d in (-1, 1) for op in ops]
    return gen


def near(E, c):
    """a curve, one of its interior knots, and the number next to it"""
    C, kv, (k,), (r,) = draw_curve(E, c['p'], c['m'], [['knot', c['k']]])
    return C, kv, k, r, beside(k, c['d'])


@contract('nearsplit', ['NurbsCurve::SplitAt', 'NurbsCurve::Extract'], c_near(('split', 'from', 'to')), trials=2, native_only=True, noconf=True,
          note='a parameter that differs from a knot by one rounding error is treated as the knot')
def nearsplit(E, c):
    p = c['p']
    C, kv, k, r, x = near(E, c)
    kl, kr = cut(kv, p, r, k)
    if c['op'] == 'split':
        res = E.ok('NurbsCurve::SplitAt', C, x, None, None)
        E.check('splitting is possible inside the domain', bool(res.ret))
        piece(E, 'left part', C, kv, p, res.out[0], kl)
        piece(E, 'right part', C, kv, p, res.out[1], kr)
    elif c['op'] == 'to':
        piece(E, 'extracted part', C, kv, p, E.ok('NurbsCurve::Extract', C, kv.v[0], x, None).out[0], kl)
    else:
        piece(E, 'extracted part', C, kv, p, E.ok('NurbsCurve::Extract', C, x, kv.v[-1], None).out[0], kr)


@contract('nearinsert', ['NurbsCurve::InsertKnot', 'NurbsCurve::RefineKnotVector', 'NurbsCurve::GetPointOnCurveByCornerCut'], c_near(('insert', 'refine', 'corner')), trials=2, native_only=True, noconf=True,
          note='a parameter that differs from a knot by one rounding error is treated as the knot')
def nearinsert(E, c):
    p = c['p']
    C, kv, k, r, x = near(E, c)
    if c['op'] == 'corner':
        i = kv.find(r, p)
        E.eq('point by corner cutting', E.ok('NurbsCurve::GetPointOnCurveByCornerCut', C, x).ret, spec.proj(spec.curve(kv, p, C['ControlPoints'], i, k, 0)))
        return
    if c['op'] == 'insert':
        E.assume(kv.mult(r) < p)
        res = E.ok('NurbsCurve::InsertKnot', C, x, 1, None)
        E.same_int('number of knots inserted', res.ret, 1)
    else:
        E.assume(kv.mult(r) <= p)
        res = E.ok('NurbsCurve::RefineKnotVector', C, [x], None)
    same_curve(E, 'knot insertion', C, kv, p, res.out[0], kv.insert(k, r, 1), p)


def c_merge(tier, lits):
    S = [(1, [2, 2]), (2, [3, 1, 3]), (3, [4, 4]), (2, [3, 2, 3])]
    if tier == 'big':
        S = [(3, [4, 1, 2, 4]), (4, [5, 1, 1, 5]), (6, [7, 2, 7]), (7, [8, 8]), (1, [2, 1, 1, 2])]
    return [{'p': a, 'm': b, 'q': d, 'n': e, 'k': k} for a, b in S for d, e in S for k in ('w', 'touch', 'apart') if abs(a - d) < 2 or k == 'touch'] + \
        [{'p': 2, 'm': m, 'q': 2, 'n': n, 'k': 'loose'} for m, n in (([3, 1, 1, 1, 1], [3, 1, 3]), ([3, 3], [1, 1, 1, 3]), ([3, 1, 2], [3, 3]), ([3, 1, 3], [2, 1, 3]))]


@contract('merge', ['NurbsCurve::Merge'], c_merge, trials=4)
def merge(E, c):
    p, q = c['p'], c['q']
    A, ka, _, _ = draw_curve(E, p, c['m'], name='a')
    B, kb, _, _ = draw_curve(E, q, c['n'], name='b')
    if c['k'] != 'apart':
        w = A['ControlPoints'][-1][3] if c['k'] == 'touch' else B['ControlPoints'][0][3]
        x = spec.proj(A['ControlPoints'][-1])
        B['ControlPoints'][0] = A['ControlPoints'][-1] if c['k'] == 'touch' else tuple(t * w for t in x) + (w,)
        if c['k'] == 'loose':           # one of them is not clamped at the joint
            B['ControlPoints'][0] = A['ControlPoints'][-1]
            E.check('a curve that does not reach the joint is refused', not E.ok('NurbsCurve::Merge', A, B, None).ret)
            return
        res = E.ok('NurbsCurve::Merge', A, B, None)
        E.check('curves that share an end point are joined', bool(res.ret))
    else:
        x = spec.proj(A['ControlPoints'][-1])
        w = B['ControlPoints'][0][3]
        g = E.pos('gap')
        B['ControlPoints'][0] = ((x[0] + g) * w, x[1] * w, x[2] * w, w)
        if E.sym:
            E.assume(E.gt0(g - 1 - E.abs(x[0])))
        else:
            E.assume(g > 1e-3)
        E.check('curves that do not meet are refused', not E.ok('NurbsCurve::Merge', A, B, None).ret)
        return
    R = res.out[0]
    d = max(p, q)
    E.check('degree is the larger one', R['Degree'] == d)

    def up(k, n):
        k2 = k
        for r in k.distinct():
            k2 = k2.insert(k.v[k.r.index(r)], r, n)
        return k2
    k1, k2 = up(ka, d - p), up(kb, d - q)
    f1 = lambda t: (t - ka.v[0]) / (ka.v[-1] - ka.v[0]) / 2
    f2 = lambda t: (t - kb.v[0]) / (kb.v[-1] - kb.v[0]) / 2 + Fraction(1, 2) if E.sym else (t - kb.v[0]) / (kb.v[-1] - kb.v[0]) / 2 + 0.5
    K = KV([f1(t) for t in k1.v] + [f2(t) for t in k2.v[d + 1:]], k1.r + [max(k1.r) + r for r in k2.r[d + 1:]])
    wellformed_curve(E, 'joined curve', R, d, K)
    for i in K.spans(d):
        u = E.interior('m.u%d' % i, K.v[i], K.v[i + 1])
        a = spec.proj(spec.curve(K, d, R['ControlPoints'], i, u))
        if K.r[i] < max(k1.r):
            b = spec.proj(spec.curve(ka, p, A['ControlPoints'], span_at(ka, p, K.r[i]), ka.v[0] + u * 2 * (ka.v[-1] - ka.v[0])))
        else:
            b = spec.proj(spec.curve(kb, q, B['ControlPoints'], span_at(kb, q, K.r[i] - max(k1.r)), kb.v[0] + (u * 2 - 1) * (kb.v[-1] - kb.v[0])))
        E.eq('joined curve follows the parts (span %d)' % i, a, b, 1e-5)


# ------------------------------------------------------------------ C14
def c_c14(tier, lits):
    return [{'p': p, 'm': m} for p in pick(tier, (1, 2, 3), range(1, 7)) for m in knot_shapes(p, tier)]


@contract('creverse', ['NurbsCurve::Reverse'], c_c14, trials=5)
def creverse(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    R = E.ok('NurbsCurve::Reverse', C, None).out[0]
    k2 = mirrored(kv)
    f = mirror_of(kv)
    wellformed_curve(E, 'reversed curve', R, p, k2)
    for i in k2.spans(p):
        u = E.interior('u%d' % i, k2.v[i], k2.v[i + 1])
        E.eq('reversed curve, span %d' % i, spec.curve(k2, p, R['ControlPoints'], i, u), spec.curve(kv, p, C['ControlPoints'], span_at(kv, p, f[1](k2, i)), f[0](u)), 1e-5)


@contract('creparam', ['NurbsCurve::Reparametrize', 'KnotVectorUtils::Rescale'], lambda tier, lits: [dict(c, keep=k) for c in c_c14(tier, lits) for k in (0, 1, 2, 3)], trials=4)
def creparam(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    k = c['keep']
    lo = kv.v[0] if k & 1 else E.real('lo')
    w = E.pos('w')
    hi = kv.v[-1] if k & 2 else lo + w if not k & 1 else kv.v[-1] + w
    if k == 2:
        lo = kv.v[0] - w
    if not E.sym and k == 0:
        E.assume(abs(lo - kv.v[0]) > 1e-3 or abs(hi - kv.v[-1]) > 1e-3)
    R = E.ok('NurbsCurve::Reparametrize|(const LN_NurbsCurve &, double, double, LN', C, lo, hi, None).out[0]
    s = (hi - lo) / (kv.v[-1] - kv.v[0])
    k2 = KV([lo + (x - kv.v[0]) * s for x in kv.v], kv.r)
    wellformed_curve(E, 'rescaled curve', R, p, k2)
    E.eq('control points are unchanged', R['ControlPoints'], C['ControlPoints'])


@contract('cmoebius', ['NurbsCurve::Reparametrize'], lambda tier, lits: [dict(c, neg=n) for c in c_c14(tier, lits) for n in (0, 1)], trials=4, note='linear rational reparametrisation g(u) = (alpha u + beta)/(gamma u + delta), increasing and without pole on the domain')
def cmoebius(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    a, b = kv.v[0], kv.v[-1]
    # gamma u + delta > 0 on [a,b]: values m0, m1 at the ends; alpha delta - beta gamma > tolerance
    m0, m1 = E.pos('m0'), E.pos('m1')
    ga = (m1 - m0) / (b - a)
    de = m0 - ga * a
    # g(a) = s0, g(b) = s0 + ds
    s0 = E.real('s0')
    ds = E.pos('ds', 0.5, 4)
    s1 = s0 + ds
    al = (s1 * m1 - s0 * m0) / (b - a)
    be = s0 * m0 - al * a
    D = al * de - ga * be
    if E.sym:
        E.assume(E.gt0(D - Fraction(1, 10 ** 6) * (1 + E.max(E.abs(al * de), E.abs(ga * be)))))
        d = ds * m0 * m1 / (b - a)
        E.hint(d)
        for t in kv.v:
            mt = (m0 * (b - t) + m1 * (t - a)) / (b - a)
            E.hint(mt)
            E.hint(-(d / mt))
            E.hint(d / mt)
    else:
        E.assume(D > 1e-3)
    if c['neg']:                # the same map written with a negative denominator
        al, be, ga, de = -al, -be, -ga, -de
    R = E.ok('NurbsCurve::Reparametrize|double, double, double, double', C, al, be, ga, de, None).out[0]
    g = lambda u: (al * u + be) / (ga * u + de)
    k2 = KV([g(x) for x in kv.v], kv.r)
    wellformed_curve(E, 'rational reparametrisation', R, p, k2)
    for i in kv.spans(p):
        u = E.interior('u%d' % i, kv.v[i], kv.v[i + 1])
        E.eq('same point at g(u), span %d' % i, spec.proj(spec.curve(k2, p, R['ControlPoints'], i, g(u))), spec.proj(spec.curve(kv, p, C['ControlPoints'], i, u)), 1e-5)


@contract('ctransform', ['NurbsCurve::CreateTransformed', 'Matrix4d::OfWeightedPoint'], c_c14, trials=4, budget=30)
def ctransform(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    A = M(E, 'a')
    R = E.ok('NurbsCurve::CreateTransformed', C, mk(E, A), None).out[0]
    wellformed_curve(E, 'transformed curve', R, p, kv)
    E.eq('every control point is the image of the original one, with its weight', R['ControlPoints'], [tuple(x * P[3] for x in app(A, spec.proj(P))) + (P[3],) for P in C['ControlPoints']])


# ------------------------------------------------------------------ C22
def _kvals(E, name, m):
    kv, ex, rk = E.knotvec(name, m)
    return kv


@contract('kvcontinuity', ['KnotVectorUtils::GetContinuity', 'KnotVectorUtils::GetKnotMultiplicityMap', 'KnotVectorUtils::GetInternalKnotMultiplicityMap', 'KnotVectorUtils::Rescale'], lambda tier, lits: [{'p': p, 'm': m} for p in (1, 2, 3, 5) for m in knot_shapes(p, tier) + [[1, 2, 1, 3], [p, 1, p]]], trials=3)
def kvcontinuity(E, c):
    p = c['p']
    kv = _kvals(E, 't', c['m'])
    d = kv.distinct()
    for r in d:
        E.same_int('continuity = degree - multiplicity', E.ok('KnotVectorUtils::GetContinuity', p, kv.v, kv.v[kv.r.index(r)]).ret, p - kv.mult(r))
    mp = E.ok('KnotVectorUtils::GetKnotMultiplicityMap', kv.v).ret
    E.eq('multiplicity map', [list(x) for x in mp], [[kv.v[kv.r.index(r)], kv.mult(r)] for r in d])
    mp = E.ok('KnotVectorUtils::GetInternalKnotMultiplicityMap', kv.v).ret
    E.eq('internal multiplicity map', [list(x) for x in mp], [[kv.v[kv.r.index(r)], kv.mult(r)] for r in d[1:-1]])
    lo = E.real('lo')
    hi = lo + E.pos('w')
    R = E.ok('KnotVectorUtils::Rescale', kv.v, lo, hi).ret
    E.eq('rescaled knots', R, [lo + (x - kv.v[0]) / (kv.v[-1] - kv.v[0]) * (hi - lo) for x in kv.v])


@contract('kvinsertends', ['KnotVectorUtils::GetInsertedKnotElement'], lambda tier, lits: [dict(c, a=list(a), b=list(b)) for c in [{'p': p, 'm': m} for p in (1, 2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1], [p + 1, p, 1, p + 1])] for i, a in enumerate(locs(c['m'])) for b in locs(c['m'])[i:] if a != b], trials=3)
def kvinsertends(E, c):
    """the knots to insert so that start and end have multiplicity degree+1"""
    p = c['p']
    kv, (a, b), (r, s) = E.knotvec('t', c['m'], [c['a'], c['b']])
    got = E.ok('KnotVectorUtils::GetInsertedKnotElement|(int', p, kv.v, a, b).ret
    E.eq('missing copies of both ends', got, [a] * (p + 1 - kv.mult(r)) + [b] * (p + 1 - kv.mult(s)))


def _pair(tier, lits):
    # per distinct value: (multiplicity in first, in second, ..)
    P = [[(2, 2), (1, 0), (0, 1), (2, 2)], [(3, 2), (1, 1), (2, 3)], [(2, 2), (0, 2), (2, 1), (1, 3), (2, 2)], [(1, 1), (3, 0), (1, 1)], [(4, 4), (4, 4)], [(2, 0), (2, 2), (0, 2)], [(4, 4), (3, 0), (0, 4), (4, 4)], [(6, 6), (5, 1), (1, 5), (0, 3), (6, 6)]]
    return [{'pat': x} for x in P]


def _expand(vals, cnt):
    return [v for v, k in zip(vals, cnt) for _ in range(k)]


@contract('kvmerge2', ['KnotVectorUtils::GetInsertedKnotElement'], _pair, trials=4)
def kvmerge2(E, c):
    v = E.chain(['t%d' % i for i in range(len(c['pat']))])
    a = [x[0] for x in c['pat']]
    b = [x[1] for x in c['pat']]
    r = E.ok('KnotVectorUtils::GetInsertedKnotElement|(const vector', _expand(v, a), _expand(v, b), [], [])
    E.eq('knots missing in the first vector', r.out[0], _expand(v, [max(0, y - x) for x, y in zip(a, b)]))
    E.eq('knots missing in the second vector', r.out[1], _expand(v, [max(0, x - y) for x, y in zip(a, b)]))


@contract('kvmergen', ['KnotVectorUtils::GetInsertedKnotElements'], [{'pat': p} for p in ([(2, 2, 2), (1, 0, 2), (0, 1, 1), (2, 2, 2)], [(3, 3, 3), (0, 0, 2), (1, 3, 0), (3, 3, 3)], [(1, 1), (0, 2), (1, 1)], [(2,), (1,), (2,)], [(2, 2, 2, 2), (0, 1, 2, 3), (3, 2, 1, 0), (2, 2, 2, 2)], [(5, 5, 5), (4, 0, 1), (0, 5, 0), (5, 5, 5)])], trials=4)
def kvmergen(E, c):
    v = E.chain(['t%d' % i for i in range(len(c['pat']))])
    n = len(c['pat'][0])
    top = [max(x) for x in c['pat']]
    r = E.ok('KnotVectorUtils::GetInsertedKnotElements|(const vector', [_expand(v, [x[k] for x in c['pat']]) for k in range(n)]).ret
    E.eq('knots missing in each vector', r, [_expand(v, [t - x[k] for t, x in zip(top, c['pat'])]) for k in range(n)])


@contract('kvmergeround', ['KnotVectorUtils::GetInsertedKnotElement', 'KnotVectorUtils::GetInsertedKnotElements'], [{'pat': x} for x in ([(3, 3), (1, 1), (3, 3)], [(3, 3), (2, 1), (0, 1), (1, 3), (3, 3)], [(4, 4), (1, 3), (3, 1), (2, 0), (4, 4)])], trials=6, native_only=True, noconf=True, note='shared knots that differ by rounding errors are shared')
def kvmergeround(E, c):
    v = E.chain(['t%d' % i for i in range(len(c['pat']))])
    w = [x * (1 + E.real('e%d' % i, -1, 1) * 3e-16) for i, x in enumerate(v)]
    a = [x[0] for x in c['pat']]
    b = [x[1] for x in c['pat']]
    A, B = _expand(v, a), _expand(w, b)
    r = E.ok('KnotVectorUtils::GetInsertedKnotElement|(const vector', A, B, [], [])
    E.eq('knots missing in the first vector', r.out[0], _expand(v, [max(0, y - x) for x, y in zip(a, b)]), 1e-9)
    E.eq('knots missing in the second vector', r.out[1], _expand(v, [max(0, x - y) for x, y in zip(a, b)]), 1e-9)
    r = E.ok('KnotVectorUtils::GetInsertedKnotElements|(const vector', [A, B]).ret
    E.eq('knots missing in each vector', r, [_expand(v, [max(0, y - x) for x, y in zip(a, b)]), _expand(v, [max(0, x - y) for x, y in zip(a, b)])], 1e-9)


@contract('kvmid', ['KnotVectorUtils::GetInsertedKnotElements'], [{'n': n, 'm': m} for n in (1, 2, 3, 4, 6) for m in ([1, 1], [2, 1, 2], [3, 1, 2, 3], [2, 1, 1, 1, 2])], native_only=True, trials=10,
          note='longest-span bisection: the path condition is an order of span lengths; concrete check against the definition')
def kvmid(E, c):
    kv = _kvals(E, 't', c['m'])
    got = E.ok('KnotVectorUtils::GetInsertedKnotElements|(int', c['n'], kv.v).ret
    E.check('as many knots as requested', len(got) == c['n'])
    E.check('sorted', all(x <= y for x, y in zip(got, got[1:])))
    d = sorted(set(kv.v))
    left = list(got)
    for _ in range(c['n']):
        # some longest span has its midpoint among the remaining ones
        m = max(b - a for a, b in zip(d, d[1:]))
        ok = [(a + b) / 2 for a, b in zip(d, d[1:]) if b - a >= m - 3e-6 * (1 + m)]
        hit = [x for x in left for y in ok if abs(x - y) < 1e-9 * (1 + abs(y))]
        E.check('every inserted knot bisects a longest span', bool(hit))
        left.remove(hit[0])
        d = sorted(d + [hit[0]])


@contract('kvuniform', ['KnotVectorUtils::IsUniform'], [{'m': m, 'g': g} for m in ([2, 2], [3, 1, 3], [3, 1, 1, 3], [1, 1, 1, 1], [3, 2, 2, 3], [3, 1, 2, 3], [3, 2, 1, 3], [3, 1, 1, 4], [2, 1, 1, 1, 2]) for g in [None] + list(range(len(m) - 1))], trials=4)
def kvuniform(E, c):
    """uniform: equal gaps, equal end multiplicities, equal interior multiplicities"""
    m, g = c['m'], c['g']
    h = E.pos('h', 0.2, 2)
    e = E.pos('e', 0.5, 2)
    t = [E.real('t0')]
    for k in range(len(m) - 1):
        t.append(t[-1] + h * (1 + e) if g == k else t[-1] + h)
    same = g is None or len(m) == 2
    if E.sym and not same:
        E.assume(E.gt0(h * e - Fraction(4, 10 ** 6) * (1 + h + h * e)))
    got = E.ok('KnotVectorUtils::IsUniform', _expand(t, m)).ret
    E.check('uniform iff equal gaps and multiplicities', bool(got) == (same and m[0] == m[-1] and len(set(m[1:-1])) <= 1))
