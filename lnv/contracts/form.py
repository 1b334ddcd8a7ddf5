"""C27 tessellation, C30 clamped / unclamped / closed / linear / circular curves."""
from fractions import Fraction
from .base import *
from .geo import one, vsub, vadd, vmul, dot, cross
from spec import KV
import spec


# ---------------------------------------------------------------- clamping
def loose_shapes(p):
    """multiplicities of knot vectors that are not clamped at one or both ends"""
    out = [[1] * (2 * p + 2), [1] * (2 * p + 4)]
    if p >= 2:
        out += [[p + 1] + [1] * (p + 2), [1] * (p + 2) + [p + 1], [2] + [1] * (2 * p), [1] * (p + 1) + [2] + [1] * (p + 1), [p] + [1] * (p + 2), [1] * (p + 1) + [p] + [1] * (p + 1)]
    if p >= 3:
        out += [[1, 2] + [1] * (2 * p - 1), [2, 1] + [1] * (2 * p - 3) + [1, 2]]
    return [m for m in out if sum(m) >= 2 * p + 2]


@contract('clamp', ['NurbsCurve::ToClampCurve', 'NurbsCurve::IsClamp'], lambda tier, lits: [{'p': p, 'm': m} for p in (1, 2, 3, 4)[:4 if tier != 'quick' else 3] for m in loose_shapes(p)] + [{'p': p, 'm': m} for p in (1, 2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1])], trials=4, summaries='gpz')
def clamp(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    n = len(kv.v) - p - 2
    lo, hi = kv.r[p], kv.r[n + 1]
    E.check('IsClamp iff both end knots have multiplicity degree + 1', bool(E.ok('NurbsCurve::IsClamp', C).ret) == (c['m'][0] == p + 1 and c['m'][-1] == p + 1))
    want = [(v, r) for v, r in zip(kv.v, kv.r) if lo < r < hi]
    k2 = KV([kv.v[p]] * (p + 1) + [x[0] for x in want] + [kv.v[n + 1]] * (p + 1), [lo] * (p + 1) + [x[1] for x in want] + [hi] * (p + 1))
    R = E.ok('NurbsCurve::ToClampCurve', C, None).out[0]
    same_curve(E, 'clamped curve', C, kv, p, R, k2, p)


def _isclamp_cases():
    return [{'p': p, 'a': a, 'b': b, 'i': i} for p in range(1, 8) for a in range(1, p + 2) for b in range(1, p + 2) if (a == p + 1 or b == p + 1 or a == b or abs(a - b) == 1) for i in ((0, 1) if p < 4 else ((a + b) % 2,))]


@contract('isclamp', ['NurbsCurve::IsClamp'], _isclamp_cases(), trials=1, summaries='gpz', note='every degree up to the maximum and end multiplicity')
def isclamp(E, c):
    p, a, b = c['p'], c['a'], c['b']
    m = [a] + [1] * (max(0, 2 * p + 2 - a - b) + c['i']) + [b]
    C, kv, _, _ = draw_curve(E, p, m)
    E.check('IsClamp iff both end knots have multiplicity degree + 1', bool(E.ok('NurbsCurve::IsClamp', C).ret) == (a == p + 1 and b == p + 1))


@contract('unclamp', ['NurbsCurve::ToUnclampCurve'], lambda tier, lits: [{'p': p, 'm': m} for p in (1, 2, 3, 4) for m in ([p + 1, p + 1], [p + 1, 1, p + 1], [p + 1, 1, 1, p + 1], [p + 1] + [1] * p + [p + 1], [p + 1] + [1] * (p + 1) + [p + 1]) + (([p + 1, 2, 1, p + 1],) if p > 2 else ())], trials=4, budget=60)
def unclamp(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    n = len(kv.v) - p - 2
    R = E.ok('NurbsCurve::ToUnclampCurve', C, None).out[0]
    k = R['KnotVector']
    E.check('degree and sizes kept', R['Degree'] == p and len(k) == len(kv.v) and len(R['ControlPoints']) == n + 1)
    E.eq('domain knots kept', k[p:n + 2], kv.v[p:n + 2])
    for i in range(p):
        E.le('leading knots ascend', k[p - i - 1], k[p - i])
        E.le('trailing knots ascend', k[n + i + 1], k[n + i + 2])
        E.eq('leading spacing is the trailing spacing', k[p - i] - k[p - i - 1], k[n - i + 1] - k[n - i])
        E.eq('trailing spacing is the leading spacing', k[n + i + 2] - k[n + i + 1], k[p + i + 1] - k[p + i])
    r2 = [kv.r[p] - 100 * (p - i) for i in range(p)] + kv.r[p:n + 2] + [kv.r[n + 1] + 100 * (i + 1) for i in range(p)]
    k2 = KV(k, r2)
    for i in kv.spans(p):
        u = E.interior('u%d' % i, kv.v[i], kv.v[i + 1])
        E.eq('same point on span %d' % i, spec.curve(k2, p, R['ControlPoints'], i, u), spec.curve(kv, p, C['ControlPoints'], i, u), 1e-4)


# ---------------------------------------------------------------- predicates
def _closed_cases():
    out = [{'k': k, 'p': p, 'm': m} for p in (1, 2, 3) for m in ([p + 1, p + 1], [p + 1, 1, 1, p + 1]) for k in ('open', 'closed')]
    out += [{'k': 'looped', 'p': p, 'm': [p + 1] + [1] * (4 - p) + [p + 1]} for p in (1, 2, 3)]
    out += [{'k': k, 'p': p, 'm': [1] * (2 * p + 1 + e)} for p in (1, 2, 3) for e in (2, 3) for k in ('wrapped', 'unwrapped', 'half')]
    return out


def uniform_kv(E, n):
    t0, h = E.real('t0'), E.pos('h')
    return KV([t0 + h * i for i in range(n)], [100 * i for i in range(n)])


def wrapped(P, p):
    """control points of a closed curve with uniform knots: the last p are the first p again"""
    return P[:len(P) - p] + P[:p]


@contract('closed', ['NurbsCurve::IsClosed'], _closed_cases(), trials=6, native_only=True, note='wrapped: uniform unclamped knots, the last p control points repeat the first p')
def closed(E, c):
    p = c['p']
    if c['m'][0] == p + 1:
        C, kv, _, _ = draw_curve(E, p, c['m'])
        P = C['ControlPoints']
        if c['k'] == 'closed':
            P[-1] = tuple(x * 0.7 for x in P[0])
        elif c['k'] == 'looped' and len(P) >= 5:
            P = P[:3] + P[:2]                       # A B C A B: the polygon repeats, the curve runs from A to B
    else:
        kv = uniform_kv(E, len(c['m']))
        P = E.wpoints('P', len(kv.v) - p - 1)
        if c['k'] == 'wrapped':
            P = wrapped(P, p)
        elif c['k'] == 'half':
            P = P[:-1] + P[:1]                      # only the end control points agree
    C = {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': P}
    n = len(P) - 1
    a = spec.proj(spec.curve(kv, p, P, kv.spans(p)[0], kv.v[p]))
    b = spec.proj(spec.curve(kv, p, P, kv.spans(p)[-1], kv.v[n + 1]))
    d2 = dot(vsub(a, b), vsub(a, b))
    E.assume(d2 < 1e-20 or d2 > 1e-6)
    E.check('closed iff the curve ends where it starts', bool(E.ok('NurbsCurve::IsClosed', C).ret) == (d2 < 1e-20))


@contract('closedsym', ['NurbsCurve::IsClosed'], [{'p': p, 'm': m, 'k': k} for p in (1, 2, 3) for k, m in (('clamped', [p + 1, p + 1]), ('clamped', [p + 1, 1, 1, p + 1]))], trials=3, summaries='gpz', note='the curves that are closed')
def closedsym(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    P = C['ControlPoints']
    s = E.pos('s')
    P[-1] = tuple(x * s for x in P[0])
    E.check('closed', bool(E.ok('NurbsCurve::IsClosed', {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': P}).ret) is True)


@contract('sclosed', ['NurbsSurface::IsClosed', 'NurbsVolume::IsClosed'], [{'k': k, 'd': d} for k in ('surface', 'volume') for d in range(3) if k == 'volume' or d < 2], trials=6, native_only=True)
def sclosed(E, c):
    d = c['d']
    k = E.choice('k', 3) if hasattr(E, 'choice') else 0
    close = E.real('q', 0, 1) < 0.5
    one_open = E.real('r', 0, 1) < 0.5
    if c['k'] == 'surface':
        S, ku, kv, _, _ = draw_surface(E, 2, [3, 1, 3], 1, [2, 1, 2])
        P = S['ControlPoints']
        n = (len(P), len(P[0]))
        if close:
            for j in range(n[1 - d]):
                if d == 0:
                    P[-1][j] = P[0][j]
                else:
                    P[j][-1] = P[j][0]
            if one_open:
                if d == 0:
                    P[-1][1] = vadd(P[-1][1], (0.5, 0.0, 0.0, 0.0))
                else:
                    P[1][-1] = vadd(P[1][-1], (0.5, 0.0, 0.0, 0.0))
        for e in (0, 1):
            E.check('surface closed iff its first and last rows agree', bool(E.ok('NurbsSurface::IsClosed', S, e == 0).ret) == (e == d and close and not one_open))
    else:
        V, ks, _, _ = draw_volume(E, (1, 2, 1), ([2, 1, 2], [3, 3], [2, 1, 2]), ((), (), ()))
        P = V['ControlPoints']
        n = (len(P), len(P[0]), len(P[0][0]))
        if close:
            for i in range(n[0]):
                for j in range(n[1]):
                    for l in range(n[2]):
                        x = [i, j, l]
                        if x[d] == n[d] - 1:
                            x[d] = 0
                            P[i][j][l] = P[x[0]][x[1]][x[2]]
            if one_open:
                x = [1, 1, 1]
                x[d] = n[d] - 1
                P[x[0]][x[1]][x[2]] = vadd(P[x[0]][x[1]][x[2]], (0.5, 0.0, 0.0, 0.0))
        for e in (0, 1, 2):
            E.check('volume closed iff its first and last layers agree', bool(E.ok('NurbsVolume::IsClosed', V, e).ret) == (e == d and close and not one_open))


@contract('periodic', ['NurbsCurve::IsPeriodic'], [{'p': p, 'e': e, 'k': k} for p in (1, 2, 3) for e in (0, 1, 3) for k in ('wrapped', 'generic', 'stretched', 'clamped', 'cornered')], trials=4, native_only=True)
def periodic(E, c):
    p, k = c['p'], c['k']
    n = 2 * p + c['e']
    if k == 'clamped':
        m = n - p - 1
        C, kv, _, _ = draw_curve(E, p, [p + 1] + [1] * max(0, m) + [p + 1])
        C['ControlPoints'][-1] = C['ControlPoints'][0]
        E.check('a clamped curve is not periodic', not E.ok('NurbsCurve::IsPeriodic', C).ret)
        return
    kv = uniform_kv(E, n + p + 1)
    P = E.wpoints('P', n)
    if k != 'generic':
        P = wrapped(P, p)
    v = list(kv.v)
    if k == 'stretched':
        v[-1 if E.real('q', 0, 1) < 0.5 else p] += 0.3 * (v[1] - v[0])
    if k == 'cornered' and p > 1:
        P[1] = vadd(P[1], (0.5, 0.25, 0.0, 0.0))
    if k == 'cornered' and p == 1:
        return
    r = bool(E.ok('NurbsCurve::IsPeriodic', {'Degree': p, 'KnotVector': v, 'ControlPoints': P}).ret)
    E.check('periodic iff uniform unclamped knots and the last p control points repeat the first p (%s)' % k, r == (k == 'wrapped'))


@contract('linear', ['NurbsCurve::IsLinear'], [{'n': n, 'k': k} for n in (2, 3, 4, 6) for k in ('line', 'repeat', 'point', 'bent', 'lastbent')], trials=6, native_only=True)
def linear(E, c):
    n, k = c['n'], c['k']
    o, d = E.point('o'), E.point('d')
    E.assume(dot(d, d) > 0.1)
    a = [0.0] + [E.real('a%d' % i) for i in range(1, n)]
    if k == 'repeat' and n > 2:
        a[1] = 0.0
    if k == 'point':
        a = [0.0] * n
    pts = [vadd(o, vmul(d, x)) for x in a]
    bent = False
    if k in ('bent', 'lastbent') and n > 2:
        i = n - 1 if k == 'lastbent' else 1 + int(abs(E.real('i', 0, n - 1.01))) % (n - 1)
        off = cross(d, E.point('e'))
        E.assume(dot(off, off) > 1e-3 and abs(a[n - 1] - a[1]) > 1e-2 and abs(a[1]) > 1e-2)
        pts[i] = vadd(pts[i], off)
        bent = True
        if i == 1:
            E.assume(any(abs(x) > 1e-2 for x in a[2:]))
    w = [E.pos('w%d' % i) for i in range(n)]
    C = {'Degree': 1, 'KnotVector': [0.0] + [float(i) for i in range(n)] + [n - 1.0], 'ControlPoints': [tuple(x * b for x in q) + (b,) for q, b in zip(pts, w)]}
    E.check('linear iff all control points lie on one line', bool(E.ok('NurbsCurve::IsLinear', C).ret) == (not bent))


@contract('isarc', ['NurbsCurve::IsArc'], [{'k': k} for k in ('arc', 'circle', 'ellipse', 'elevated', 'refined', 'line', 'generic', 'almost')], trials=8, native_only=True)
def isarc(E, c):
    k = c['k']
    o = E.point('o')
    X = E.point('x')
    Y = cross(E.point('y'), X)
    E.assume(dot(X, X) > 0.1 and dot(Y, Y) > 0.1)
    a, th, r = E.real('a', 0, 3), E.real('s', 0.4, 6.0), E.pos('r', 0.5, 4)
    E.assume(0.3 <= th <= 6.1 and 0.2 <= r <= 10 and abs(a) <= 6)
    if k == 'circle':
        th = 2 * 3.141592653589793
    if k in ('line', 'generic'):
        C, kv, _, _ = draw_curve(E, 2, [3, 1, 3])
        if k == 'line':
            C['ControlPoints'] = [tuple((q + i * e) * w for q, e in zip(o, X)) + (w,) for i, w in enumerate([1.0, 0.7, 1.3, 1.0])]
        E.check('not an arc (%s)' % k, not E.ok('NurbsCurve::IsArc', C, None).ret)
        return
    C = E.ok('NurbsCurve::CreateArc', o, X, Y, a, a + th, r, r * (1.4 if k == 'ellipse' else 1.0), None).out[0]
    if k == 'elevated':
        C = E.ok('NurbsCurve::ElevateDegree', C, 1, None).out[0]
    if k == 'refined':
        C = E.ok('NurbsCurve::RefineKnotVector', C, [0.111, 0.6180339], None).out[0]
    if k == 'almost':
        P = list(C['ControlPoints'])
        E.assume(th >= 1.5)
        P[1] = vadd(P[1], tuple(0.2 * r * x / E.sqrt(dot(X, X)) for x in X) + (0.0,))
        C = dict(C, ControlPoints=P)
    R = E.ok('NurbsCurve::IsArc', C, None)
    good = k not in ('ellipse', 'almost')
    E.check('arc recognised iff it is circular (%s)' % k, bool(R.ret) == good)
    if good:
        E.eq('radius', R.out[0]['Radius'], r, 1e-5)
        E.eq('centre', R.out[0]['Center'], o, 1e-5)
        E.check('full circle flag', bool(R.out[0]['IsCircle']) == (k == 'circle'))


# ---------------------------------------------------------------- tessellation
@contract('eqtess', ['NurbsCurve::EquallyTessellate'], [{'p': p, 'm': m} for p in (1, 2, 3) for m in knot_shapes(p)[:3 if p > 1 else 2]], trials=3, native_only=True)
def eqtess(E, c):
    _eqtess(E, c)


@contract('eqtesssym', ['NurbsCurve::EquallyTessellate'], lambda tier, lits: [{'p': p, 'm': [p + 1] * 2} for p in ((1,) if tier == 'quick' else (1, 2))], trials=1, budget=200)
def eqtesssym(E, c):
    _eqtess(E, c)


def _eqtess(E, c):
    p = c['p']
    C, kv, vals, ranks = draw_curve(E, p, c['m'])
    pts, ks = E.ok('NurbsCurve::EquallyTessellate', C, [], []).out
    E.check('one point per parameter', len(pts) == len(ks))
    d = [kv.v[i] for i in range(len(kv.v)) if i == 0 or kv.r[i] != kv.r[i - 1]]
    per = len(ks) // (len(d) - 1)
    E.check('as many points on every span', per * (len(d) - 1) == len(ks) and per >= 2)
    for i, s in enumerate(kv.spans(p)):
        E.eq('span starts at its knot', ks[i * per], d[i])
        E.eq('span ends at the next knot', ks[(i + 1) * per - 1], d[i + 1])
        for j in range(per):
            t = ks[i * per + j]
            E.eq('equally spaced', (t - d[i]) * (per - 1), (d[i + 1] - d[i]) * j)
            if j % 9 == 0 or not E.sym:
                E.eq('point of the curve at its parameter', pts[i * per + j], spec.proj(spec.curve(kv, p, C['ControlPoints'], s, t)), 1e-6)


@contract('seqtess', ['NurbsSurface::EquallyTessellate'], [{'pu': 1, 'mu': [2, 2], 'pv': 1, 'mv': [2, 1, 2]}, {'pu': 2, 'mu': [3, 1, 3], 'pv': 3, 'mv': [4, 4]}], trials=1, native_only=True, noconf=True)
def seqtess(E, c):
    S, ku, kv, _, _ = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'])
    pts, uv = E.ok('NurbsSurface::EquallyTessellate', S, [], []).out
    E.check('one point per parameter', len(pts) == len(uv))
    E.eq('first corner', uv[0], (ku.v[0], kv.v[0]))
    E.eq('last corner', uv[-1], (ku.v[-1], kv.v[-1]))
    for k in range(0, len(pts), 37):
        u, v = uv[k]
        E.check('inside the domain', ku.v[0] - 1e-9 <= u <= ku.v[-1] + 1e-9 and kv.v[0] - 1e-9 <= v <= kv.v[-1] + 1e-9)
        E.eq('point of the surface at its parameter', pts[k], E.ok('NurbsSurface::GetPointOnSurface', S, uv[k]).ret, 1e-6)
    E.eq('last point', pts[-1], E.ok('NurbsSurface::GetPointOnSurface', S, uv[-1]).ret, 1e-6)
    for kk, a, n in ((ku, 0, len({x[0] for x in uv})), (kv, 1, len({x[1] for x in uv}))):
        have = sorted({x[a] for x in uv})
        for i in range(len(kk.v)):
            E.check('every knot is sampled', min(abs(kk.v[i] - x) for x in have) < 1e-9)
        h = max(b - a2 for a2, b in zip(have, have[1:]))
        w = max(b - a2 for a2, b in zip(kk.v, kk.v[1:]))
        E.check('samples at most a fiftieth of the widest span apart', h <= w / 50 + 1e-9)
    E.check('grid covers every combination', len({x[0] for x in uv[:-1]}) * len({x[1] for x in uv[:-1]}) == len(uv) - 1)


@contract('tess', ['NurbsCurve::Tessellate', 'TessellateCore'], [{'p': p, 'm': m} for p in (1, 2, 3, 4, 5) for m in knot_shapes(p)[:2]] + [{'p': p, 'm': [p + 1, p + 1], 'k': 'sym'} for p in (2, 3, 4, 5)], trials=2, native_only=True, noconf=True, note='non-rational curves monotone in x (parameters of the points recovered by bisection) and rational curves (points, order of end points)')
def tess(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    n = len(C['ControlPoints'])
    if c.get('k') == 'sym':
        y = [E.real('y%d' % i) for i in range(n)]
        P = [(float(i), (y[i] - y[n - 1 - i]), 0.5 * (y[i] - y[n - 1 - i]), 1.0) for i in range(n)]
    else:
        x, P = 0.0, []
        for i in range(n):
            x += E.pos('d%d' % i)
            P.append((x,) + E.point('q%d' % i)[1:] + (1.0,))
    C = dict(C, ControlPoints=P)

    def ev(u):
        i = next((i for i in kv.spans(p) if kv.v[i] <= u < kv.v[i + 1]), kv.spans(p)[-1])
        return spec.proj(spec.curve(kv, p, P, i, u))
    pts = E.ok('NurbsCurve::Tessellate', C).ret
    E.eq('starts at the start of the curve', pts[0], ev(kv.v[0]), 1e-6)
    E.eq('ends at the end of the curve', pts[-1], ev(kv.v[-1]), 1e-6)
    prev = None
    step = max(1, len(pts) // 60)
    us = []
    for k in sorted(set(list(range(0, len(pts), step)) + list(range(1, len(pts), step)) + [len(pts) - 1])):
        q = pts[k]
        lo, hi = kv.v[0], kv.v[-1]
        for _ in range(60):
            mid = (lo + hi) / 2
            if ev(mid)[0] < q[0]:
                lo = mid
            else:
                hi = mid
        E.eq('point on the curve', q, ev((lo + hi) / 2), 1e-5)
        if us:
            E.check('points in curve order', us[-1][1] < (lo + hi) / 2 + 1e-9)
        us.append((k, (lo + hi) / 2))
    for (k, a), (l, b) in zip(us, us[1:]):
        if l == k + 1:
            for f in (0.2, 0.5, 0.7):
                q = ev(a + f * (b - a))
                ch = vsub(pts[l], pts[k])
                e = vsub(q, pts[k])
                cr = cross(e, ch)
                E.check('polyline within tolerance of the curve', dot(cr, cr) <= 1e-6 * dot(ch, ch) + 1e-14)


@contract('tri', ['NurbsSurface::Triangulate'], [{'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'r': r} for pu, mu, pv, mv in ((1, [2, 2], 1, [2, 2]), (2, [3, 3], 1, [2, 1, 2]), (2, [3, 1, 3], 2, [3, 3])) for r in ((2, 2), (3, 2), (2, 4), (4, 3))], trials=4, native_only=False, budget=60)
def tri(E, c):
    S, ku, kv, _, _ = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'])
    n, m = c['r']
    # knots inside the domain must not coincide with grid lines: only their ranks are compared
    M = E.ok('NurbsSurface::Triangulate', S, n, m, False).ret
    E.check('one vertex per grid point', len(M['Vertices']) == n * m)
    E.check('two triangles per cell', len(M['Faces']) == 2 * (n - 1) * (m - 1))
    for i in range(n):
        for j in range(m):
            u = ku.v[0] + (ku.v[-1] - ku.v[0]) * i / (n - 1)
            v = kv.v[0] + (kv.v[-1] - kv.v[0]) * j / (m - 1)
            if not E.sym or (0 in (i, n - 1 - i) and 0 in (j, m - 1 - j)) or (len(c['mu']) == 2 and len(c['mv']) == 2):
                if E.sym:
                    su = ku.spans(c['pu'])[0 if i < n - 1 else -1]
                    sv = kv.spans(c['pv'])[0 if j < m - 1 else -1]
                    q = spec.proj(spec.surface(ku, c['pu'], kv, c['pv'], S['ControlPoints'], su, u, sv, v))
                else:
                    q = E.ok('NurbsSurface::GetPointOnSurface', S, (u, v)).ret
                E.eq('vertex = surface point at the grid parameter', M['Vertices'][i * m + j], q, 1e-6)
    edges = {}
    for f in M['Faces']:
        E.check('triangles of existing, distinct vertices', len(f) == 3 and len(set(f)) == 3 and all(0 <= x < n * m for x in f))
        for a, b in zip(f, f[1:] + f[:1]):
            edges[(a, b)] = edges.get((a, b), 0) + 1
    E.check('consistently oriented, no edge twice in one direction', all(k == 1 for k in edges.values()))
    bd = {(a, b) for a, b in edges if (b, a) not in edges}
    E.check('the mesh has the boundary of the grid only', len(bd) == 2 * (n - 1 + m - 1) and all((a // m == b // m and a // m in (0, n - 1)) or (a % m == b % m and a % m in (0, m - 1)) for a, b in bd))


# ---------------------------------------------------------------- extension
@contract('extend', ['NurbsCurve::Extend'], [{'k': k, 'p': p, 'm': m, 's': s} for k in ('tangent', 'arc', 'natural') for p in (2, 3) for m in ([p + 1, p + 1], [p + 1, 1, p + 1]) for s in (0, 1)], trials=6, native_only=True)
def extend(E, c):
    p, k, s = c['p'], c['k'], c['s']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    delta = E.pos('len', 0.1, 1.0)
    P = C['ControlPoints']
    if k == 'natural':
        P = C['ControlPoints'] = [q[:3] + (1.0,) for q in P]
    end = kv.v[0] if s else kv.v[-1]
    D = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', C, 2, end).ret
    E.assume(dot(D[1], D[1]) > 1e-2)
    T = vmul(D[1], 1 / E.sqrt(dot(D[1], D[1])))
    cr = cross(D[1], D[2])
    if k == 'arc':
        kap = E.sqrt(dot(cr, cr)) / (dot(D[1], D[1]) ** 1.5)
        E.assume(dot(cr, cr) > 1e-2 and kap * delta < 6.0 and kap > 0.02)
    R = E.ok('NurbsCurve::Extend', C, delta, bool(s), {'tangent': 0, 'arc': 1, 'natural': 2}[k], None).out[0]
    a, b = R['KnotVector'][0], R['KnotVector'][-1]
    pt = lambda u: E.ok('NurbsCurve::GetPointOnCurve', R, u).ret
    # the end that is not extended stays
    E.eq('other end stays', pt(b) if s else pt(a), spec.proj(P[-1] if s else P[0]), 1e-5)
    tip = pt(a) if s else pt(b)
    sg = -1.0 if s else 1.0
    if k == 'tangent':
        E.eq('extended along the tangent by the length', tip, vadd(D[0], vmul(T, sg * delta)), 1e-5)
    elif k == 'arc':
        N = vsub(D[2], vmul(T, dot(D[2], T)))
        N = vmul(N, 1 / E.sqrt(dot(N, N)))
        r = 1 / kap
        th = delta / r
        want = vadd(D[0], vadd(vmul(T, sg * r * E.sin(th)), vmul(N, r * (1 - E.cos(th)))))
        E.eq('extended along the osculating circle by the length', tip, want, 1e-4)
    else:
        dom = [kv.v[0], kv.v[-1]]
        E.check('natural extension keeps the parameters', (abs(b - dom[1]) < 1e-9 and a < dom[0]) if s else (abs(a - dom[0]) < 1e-9 and b > dom[1]))
        i = kv.spans(p)[0 if s else -1]
        for f in (0.25, 0.5, 1.0):
            u = dom[0] + f * (a - dom[0]) if s else dom[1] + f * (b - dom[1])
            E.eq('continues the end polynomial', pt(u), spec.proj(spec.curve(kv, p, P, i, u)), 1e-4)
        L, m = 0.0, 400
        lo, hi = (a, dom[0]) if s else (dom[1], b)
        prev = None
        for j in range(m + 1):
            q = spec.proj(spec.curve(kv, p, P, i, lo + (hi - lo) * j / m))
            if prev is not None:
                e = vsub(q, prev)
                L += E.sqrt(dot(e, e))
            prev = q
        E.check('by about the requested length', abs(L - delta) <= 0.1 * delta)
    # the original curve is part of the result
    for i in kv.spans(p):
        u = E.between('u%d' % i, kv.v[i], kv.v[i + 1])
        q = spec.proj(spec.curve(kv, p, P, i, u))
        if k == 'natural':
            E.eq('contains the original curve', pt(u), q, 1e-5)
        else:
            x = (u - kv.v[0]) / (kv.v[-1] - kv.v[0])
            # Merge maps the two parts to [0,1/2] and [1/2,1]
            E.eq('contains the original curve', pt(0.5 * x + (0.5 if s else 0.0)), q, 1e-5)
