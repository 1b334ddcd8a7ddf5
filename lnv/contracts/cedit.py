"""C09-C13: knot insertion / refinement, elevation, decomposition, removal / reduction, split / merge of curves."""
from .base import *
import spec


def shapes(tier, ps=None):
    out = []
    for p in ps or pick(tier, (1, 2, 3), (1, 2, 3, 4, 5)):
        for m in knot_shapes(p, tier):
            out.append((p, m))
    return out


def c_ins(tier, lits):
    out = []
    for p, m in shapes(tier) + [(4, [5, 1, 5]), (5, [6, 2, 6])]:
        for l in locs(m, False):
            s = m[l[1]] if l[0] == 'knot' else 0
            for t in sorted({1, 2, p - s}):
                if 0 < t <= p - s:
                    out.append({'p': p, 'm': m, 'loc': list(l), 'times': t})
    return out


@contract('insert', ['NurbsCurve::InsertKnot'], c_ins)
def insert(E, c):
    p = c['p']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    res = E.ok('NurbsCurve::InsertKnot', C, u, c['times'], None)
    E.same_int('number of knots inserted', res.ret, c['times'])
    same_curve(E, 'knot insertion', C, kv, p, res.out[0], kv.insert(u, r, c['times']), p)


def c_insover(tier, lits):
    out = []
    for p, m in shapes(tier):
        for l in locs(m, False):
            s = m[l[1]] if l[0] == 'knot' else 0
            for t in (p + 1 - s, p + 2 - s, p + 5):
                if t > 0:
                    out.append({'p': p, 'm': m, 'loc': list(l), 'times': t})
    return out


@contract('insertover', ['NurbsCurve::InsertKnot'], c_insover, note='requests beyond the admissible multiplicity: whatever number is reported as inserted, the curve is unchanged')
def insertover(E, c):
    p = c['p']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    res = E.ok('NurbsCurve::InsertKnot', C, u, c['times'], None)
    t = res.ret
    s = kv.mult(r) if c['loc'][0] == 'knot' else 0
    E.check('reported count within the request and the admissible multiplicity', 0 <= t <= c['times'] and s + t <= p + 1)
    if t > 0:
        same_curve(E, 'knot insertion', C, kv, p, res.out[0], kv.insert(u, r, t), p)


def c_ref(tier, lits):
    out = []
    for p, m in shapes(tier) + [(4, [5, 1, 5])]:
        k = len(m) - 1
        pats = [[('span', 0)], [('span', k - 1)], [('span', 0), ('span', 0)]]
        if k > 1:
            pats += [[('span', 0), ('span', 1)], [('span', 0), ('span', k - 1)]]
            if m[1] < p:
                pats += [[('knot', 1)], [('span', 0), ('knot', 1)], [('knot', 1), ('span', 1)], [('knot', 1)] * (p - m[1])]
        if p > 1:
            pats += [[('span', 0, 'dup')]]
        for x in pats:
            out.append({'p': p, 'm': m, 'x': [list(y) for y in x]})
    return out


@contract('refine', ['NurbsCurve::RefineKnotVector'], c_ref)
def refine(E, c):
    p = c['p']
    ex = [x[:2] for x in c['x']]
    C, kv, us, rs = draw_curve(E, p, c['m'], ex)
    if len(c['x'][0]) > 2:
        us, rs = us * 2, rs * 2
    X = [u for _, u in sorted(zip(rs, us), key=lambda z: z[0])]
    res = E.ok('NurbsCurve::RefineKnotVector', C, X, None)
    kv2 = kv
    for u, r in zip(us, rs):
        kv2 = kv2.insert(u, r, 1)
    same_curve(E, 'refinement', C, kv, p, res.out[0], kv2, p)


def c_elev(tier, lits):
    return [{'p': p, 'm': m, 'times': t} for p, m in shapes(tier) + [(4, [5, 5]), (4, [5, 2, 5])] for t in ((1, 2, 3) if p < 4 else (1, 2))]


@contract('elevate', ['NurbsCurve::ElevateDegree'], c_elev, trials=4)
def elevate(E, c):
    p, t = c['p'], c['times']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    res = E.ok('NurbsCurve::ElevateDegree', C, t, None)
    kv2 = kv
    for r, v in sorted(set((r, i) for i, r in enumerate(kv.r))):
        pass
    for r in kv.distinct():
        kv2 = kv2.insert(kv.v[kv.r.index(r)], r, t)
    same_curve(E, 'degree elevation', C, kv, p, res.out[0], kv2, p + t)


def c_dec(tier, lits):
    out = [{'p': p, 'm': m} for p, m in shapes(tier) + [(4, [5, 2, 5]), (4, [5, 1, 3, 5]), (5, [6, 1, 5, 6])]]
    out += [{'p': p, 'm': [p + 1, p, 1, p + 1]} for p in (1, 2, 3)] + [{'p': p, 'm': [p + 1, 1, p, 1, p + 1]} for p in (2, 3)]
    return out


@contract('decompose', ['NurbsCurve::DecomposeToBeziers'], c_dec)
def decompose(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    L = E.ok('NurbsCurve::DecomposeToBeziers', C).ret
    sp = kv.spans(p)
    E.check('one Bezier segment per non-empty span', len(L) == len(sp))
    if len(L) != len(sp):
        E.fail('segment count', '%d' % len(L))
    for i, B in zip(sp, L):
        E.check('segment degree', B['Degree'] == p)
        E.eq('segment knots', B['KnotVector'], [0] * (p + 1) + [1] * (p + 1))
        E.check('segment control point count', len(B['ControlPoints']) == p + 1)
        u = E.interior('d.u%d' % i, kv.v[i], kv.v[i + 1])
        s = (u - kv.v[i]) / (kv.v[i + 1] - kv.v[i])
        E.eq('segment %d reproduces the curve on its span' % i, spec.blossom_bezier(B['ControlPoints'], s), spec.curve(kv, p, C['ControlPoints'], i, u), 1e-5)


@contract('remove', ['NurbsCurve::RemoveKnot'], lambda tier, lits: [{'p': 2, 'm': [3, 1, 3], 'loc': ['span', 0]}, {'p': 3, 'm': [4, 1, 4], 'loc': ['span', 1]}], native_only=True,
          note='known finding: the curve is not kept (an existing unit test pins the wrong control points)')
def remove(E, c):
    p = c['p']
    C0, kv0, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    kv, cps = spec.insert_once(kv0, p, C0['ControlPoints'], u, r)
    C = {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': cps}
    res = E.ok('NurbsCurve::RemoveKnot', C, u, 1, None)
    E.check('a removable knot is removed', bool(res.ret))
    same_curve(E, 'knot removal', C, kv, p, res.out[0], kv0, p)


def c_remf(tier, lits):
    out = []
    for p, m in shapes(tier) + [(4, [5, 1, 5]), (5, [6, 2, 6])]:
        for k in range(1, len(m) - 1):
            if m[k] <= p:
                out.append({'p': p, 'm': m, 'k': k})
    return out


@contract('removeform', ['NurbsCurve::RemoveKnot'], c_remf, summaries='gprem', budget=20, note='one removal of an arbitrary interior knot')
def removeform(E, c):
    p, k = c['p'], c['k']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [('knot', k)])
    res = E.ok('NurbsCurve::RemoveKnot', C, u, 1, None)
    if not res.ret:
        E.check('nothing is written when the knot is kept', not E.clean or len(res.out[0]['ControlPoints']) == 0)
        return
    R = res.out[0]
    i = max(x for x in range(len(kv.v)) if kv.r[x] == r)
    from spec import KV
    kv2 = KV(kv.v[:i] + kv.v[i + 1:], kv.r[:i] + kv.r[i + 1:])
    wellformed_curve(E, 'removal', R, p, kv2)
    first, last = i - p, i - c['m'][k]
    for x in range(first):
        E.eq('control point %d before the influence of the knot kept' % x, R['ControlPoints'][x], C['ControlPoints'][x])
    for x in range(last + 1, len(C['ControlPoints'])):
        E.eq('control point %d after the influence of the knot kept' % x, R['ControlPoints'][x - 1], C['ControlPoints'][x])


@contract('removeexc', ['NurbsCurve::RemoveExcessiveKnots'], [{'p': p, 'm': m} for p, m in ((2, [3, 2, 3]), (3, [4, 2, 4]), (3, [4, 3, 4]), (2, [3, 1, 2, 3]), (3, [4, 2, 1, 4]), (2, [3, 1, 3]), (1, [2, 1, 2]))], trials=4, summaries='gprem', budget=25,
          note='the frame of the operation: which knots may go; that removing them keeps the curve is limited by the known finding on RemoveKnot')
def removeexc(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    R = E.ok('NurbsCurve::RemoveExcessiveKnots', C, None).out[0]
    E.check('degree kept', R['Degree'] == p)
    nk, nc = len(R['KnotVector']), len(R['ControlPoints'])
    E.check('as many knots as control points + degree + 1', nk == nc + p + 1)
    gone = len(kv.v) - nk
    most = sum(max(0, x - 1) for x in c['m'][1:-1])
    E.check('only excess multiplicity is removed', 0 <= gone <= most)
    if gone == 0:
        E.eq('nothing removed: the control points are kept', R['ControlPoints'], C['ControlPoints'])
        E.eq('nothing removed: the knots are kept', R['KnotVector'], kv.v)
        return
    E.eq('start knots kept', R['KnotVector'][:p + 1], kv.v[:p + 1])
    E.eq('end knots kept', R['KnotVector'][-p - 1:], kv.v[-p - 1:])
    E.eq('first control point kept', R['ControlPoints'][0], C['ControlPoints'][0])
    E.eq('last control point kept', R['ControlPoints'][-1], C['ControlPoints'][-1])
    if len(c['m']) == 3:
        E.eq('the interior knot stays with a smaller multiplicity', R['KnotVector'][p + 1:-p - 1], [kv.v[p + 1]] * (c['m'][1] - gone))


@contract('modtol', ['ValidationUtils::ComputeCurveModifyTolerance'], [{'n': n} for n in (1, 2, 3)], summaries='gp', bound='1..3 control points', trials=10)
def modtol(E, c):
    P = E.wpoints('P', c['n'])
    r = E.ok('ValidationUtils::ComputeCurveModifyTolerance', P).ret
    w = 1
    d = 0
    for q in P:
        w = E.min(w, q[3])
        x = spec.proj(q)
        d = E.max(d, E.sqrt(spec.dot(x, x)))
    E.lt('tolerance is positive', 0, r)
    E.le('tolerance at most dist/(1+max distance)', r * (1 + d), 1e-4 * w if not E.sym else w / 10000)
    E.le('tolerance at least dist*minweight/(1+max distance)', 1e-4 * w if not E.sym else w / 10000, r * (1 + d))


def c_red(tier, lits):
    return [{'p': p} for p in ((1, 2, 3, 4, 5) if tier == 'quick' else (1, 2, 3, 4, 5, 6))]


@contract('reduce', ['NurbsCurve::ReduceDegree'], c_red, summaries='gprem', budget=25)
def reduce(E, c):
    """a Bezier curve obtained by elevating degree p is reduced back to it"""
    p = c['p']
    C0, kv0, _, _ = draw_curve(E, p, [p + 1, p + 1])
    cps = spec.elevate_bezier(C0['ControlPoints'])
    kv = kv0.insert(kv0.v[0], 0, 1)
    kv = kv.insert(kv0.v[-1], 100, 1)
    C = {'Degree': p + 1, 'KnotVector': kv.v, 'ControlPoints': cps}
    res = E.ok('NurbsCurve::ReduceDegree', C, None)
    E.check('an exactly reducible curve is reduced', bool(res.ret))
    same_curve(E, 'degree reduction', C, kv, p + 1, res.out[0], kv0, p)


@contract('reducegen', ['NurbsCurve::ReduceDegree'], lambda tier, lits: [{'p': p, 'm': m} for p in (1, 2, 3, 4) for m in knot_shapes(p)[:2]], summaries='gprem', budget=25,
          note='general curves: refused, or reduced with the end points kept')
def reducegen(E, c):
    p = c['p']
    C, kv, _, _ = draw_curve(E, p, c['m'])
    res = E.ok('NurbsCurve::ReduceDegree', C, None)
    if len(c['m']) > 2 or p == 1:
        E.check('not a reducible Bezier: refused', not res.ret)
    elif res.ret:
        R = res.out[0]
        E.check('degree lowered', R['Degree'] == p - 1)
        E.check('sizes consistent', len(R['KnotVector']) == 2 * p and len(R['ControlPoints']) == p)
        E.eq('start point kept', R['ControlPoints'][0], C['ControlPoints'][0])
        E.eq('end point kept', R['ControlPoints'][-1], C['ControlPoints'][-1])


@contract('reducetol', ['NurbsCurve::ReduceDegree', 'ValidationUtils::ComputeCurveModifyTolerance'], [{'p': p, 'e': e, 'w': w} for p in (2, 3, 4, 5, 6, 7) for e in (0, 0.02, 0.3, 1, 2, 3, 4, 5, 6, 8, 10, 14, 30) for w in (0, 1)], native_only=True, trials=6,
          note='accepted: no point of the (homogeneous) curve moves by more than the tolerance; refused: only if the curve is not within a hundredth of the tolerance of a reducible one')
def reducetol(E, c):
    p, e = c['p'], c['e']
    C0, kv0, _, _ = draw_curve(E, p - 1, [p, p], rational=True)
    if not c['w']:
        C0['ControlPoints'] = [tuple(x / P[3] for x in P[:3]) + (1.0,) for P in C0['ControlPoints']]
    cps = spec.elevate_bezier(C0['ControlPoints'])
    big = max(sum(x * x for x in P[:3]) ** .5 / P[3] for P in cps)
    tol = 1e-4 * min(1.0, min(P[3] for P in cps)) / (1 + big)
    # deviation e*tol, put on one control point
    j = int(E.real('j', 0, 1) * 0 + (p // 2))
    d = tuple(E.real('d%d' % i) for i in range(3))
    L = sum(x * x for x in d) ** .5
    E.assume(L > 0.1)
    cps = [tuple(x + (d[i] / L * e * tol if i < 3 else 0) for i, x in enumerate(P)) if k == j else P for k, P in enumerate(cps)]
    kv = kv0.insert(kv0.v[0], 0, 1).insert(kv0.v[-1], 100, 1)
    C = {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': cps}
    res = E.ok('NurbsCurve::ReduceDegree', C, None)
    if e <= 0.02:
        E.check('reducible within the tolerance: accepted', bool(res.ret))
    if res.ret:
        R = res.out[0]
        dev = 0.0
        for k in range(41):
            u = kv.v[0] + (kv.v[-1] - kv.v[0]) * k / 40
            a = spec.curve(kv, p, cps, p, u)
            b = spec.curve(kv0, p - 1, R['ControlPoints'], p - 1, u)
            dev = max(dev, sum((x - y) ** 2 for x, y in zip(a, b)) ** .5)
        E.le('accepted: the curve moves by at most the tolerance', dev, tol * (1 + 1e-3) + 1e-9)
