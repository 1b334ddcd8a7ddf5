"""C04, C05: curve points and derivatives."""
from .base import *
from .basis import c_shape_loc, degs
import spec


def c_pt(tier, lits):
    out = []
    for p in pick(tier, [1, 2, 3], range(1, 8)):
        for m in knot_shapes(p, tier):
            if tier == 'quick' and p == 3 and len(m) > 3:
                continue
            for l in locs(m):
                out.append({'p': p, 'm': m, 'loc': list(l)})
    if tier == 'quick':
        for p in (4, 5, 6, 7):
            out.append({'p': p, 'm': [p + 1, 2, p + 1], 'loc': ['span', 1]})
    return out


@contract('bspt', ['BsplineCurve::GetPointOnCurve'], c_pt)
def bspt(E, c):
    p = c['p']
    for rat, sig in ((False, '|XYZ (const LN_B'), (True, '|XYZW (const LN_B')):
        C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']], rat, 'r' if rat else '')
        sp = at(kv, p, c['loc'], r)
        got = E.ok('BsplineCurve::GetPointOnCurve' + sig, C, u).ret
        E.eq('C(u) = sum N_i,p(u) P_i', got, spec.curve(kv, p, C['ControlPoints'], sp, u))


@contract('nupt', ['NurbsCurve::GetPointOnCurve'], c_pt)
def nupt(E, c):
    p = c['p']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    sp = at(kv, p, c['loc'], r)
    got = E.ok('NurbsCurve::GetPointOnCurve', C, u).ret
    h = spec.curve(kv, p, C['ControlPoints'], sp, u)
    E.eq('C(u) = sum N w P / sum N w', got, spec.proj(h))
    if c['loc'][0] == 'knot' and c['loc'][1] in (0, len(c['m']) - 1):
        E.eq('a clamped curve starts / ends at its end control points', got, spec.proj(C['ControlPoints'][0 if c['loc'][1] == 0 else -1]))


def c_cc(tier, lits):
    return [c for c in c_pt(tier, lits)]


@contract('cornercut', ['NurbsCurve::GetPointOnCurveByCornerCut'], c_cc, summaries='gpz')
def cornercut(E, c):
    p = c['p']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    sp = at(kv, p, c['loc'], r)
    got = E.ok('NurbsCurve::GetPointOnCurveByCornerCut', C, u).ret
    E.eq('corner cutting gives the curve point', got, spec.proj(spec.curve(kv, p, C['ControlPoints'], sp, u)))


def c_ders(tier, lits):
    out = []
    for c in c_pt(tier, lits):
        for d in sorted({1, 2, 3, c['p'] + 1}):
            if d <= c['p'] + 1 and (tier != 'quick' or c['p'] <= 3 or d == 2):
                out.append(dict(c, d=d))
    return out


@contract('bsders', ['BsplineCurve::ComputeDerivatives', 'BsplineCurve::ComputeDerivativesByAllBasisFunctions'], c_ders)
def bsders(E, c):
    p, d = c['p'], c['d']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']], False)
    sp = at(kv, p, c['loc'], r)
    want = [spec.curve(kv, p, C['ControlPoints'], sp, u, k) if k <= p else (0, 0, 0) for k in range(d + 1)]
    got = E.ok('BsplineCurve::ComputeDerivatives|vector<XYZ> (', C, d, u).ret
    E.eq('derivative vector k', got, want)
    got = E.ok('BsplineCurve::ComputeDerivativesByAllBasisFunctions|vector<XYZ> (', C, d, u).ret
    E.eq('derivative vector k (all basis functions)', got, want)
    if p <= 2:
        C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']], True, 'r')
        want = [spec.curve(kv, p, C['ControlPoints'], sp, u, k) if k <= p else (0, 0, 0, 0) for k in range(d + 1)]
        E.eq('homogeneous derivative k', E.ok('BsplineCurve::ComputeDerivatives|vector<XYZW> (', C, d, u).ret, want)
        E.eq('homogeneous derivative k (all basis functions)', E.ok('BsplineCurve::ComputeDerivativesByAllBasisFunctions|vector<XYZW> (', C, d, u).ret, want)


@contract('bsdercps', ['BsplineCurve::ComputeControlPointsOfDerivatives'],
          lambda tier, lits: [{'p': p, 'm': m, 'd': d} for p in pick(tier, (1, 2, 3, 4), range(1, 8)) for m in knot_shapes(p, tier) if max([0] + m[1:-1]) < p for d in sorted({1, 2, p}) if d <= p])
def bsdercps(E, c):
    p, d = c['p'], c['d']
    C, kv, _, _ = draw_curve(E, p, c['m'], [], False)
    n = nctrl(c['m'], p) - 1
    if d > 1 and any(x > p - d + 1 for x in c['m'][1:-1]):
        d = min(d, p - max(c['m'][1:-1]) + 1)
    PK = E.ok('BsplineCurve::ComputeControlPointsOfDerivatives|vector<vector<XYZ>> (', C, d, 0, n).ret
    # P_i^(k) = (p-k+1)/(u_{i+p+1}-u_{i+k}) (P_{i+1}^(k-1) - P_i^(k-1))
    cur = C['ControlPoints']
    E.eq('order 0 control points', PK[0][:n + 1], cur)
    for k in range(1, d + 1):
        cur = [spec.vmul(spec.vsub(cur[i + 1], cur[i]), (p - k + 1) / (kv.v[i + p + 1] - kv.v[i + k])) for i in range(n - k + 1)]
        E.eq('control points of the derivative curve, order %d' % k, PK[k][:n - k + 1], cur)


@contract('nuders', ['NurbsCurve::ComputeRationalCurveDerivatives'], c_ders)
def nuders(E, c):
    p, d = c['p'], c['d']
    C, kv, (u,), (r,) = draw_curve(E, p, c['m'], [c['loc']])
    sp = at(kv, p, c['loc'], r)
    H = [spec.curve(kv, p, C['ControlPoints'], sp, u, k) if k <= p else (0, 0, 0, 0) for k in range(d + 1)]
    got = E.ok('NurbsCurve::ComputeRationalCurveDerivatives', C, d, u).ret
    E.eq('k-th derivative of the rational curve', got, spec.ratders(H), 1e-5)


def c_geo(tier, lits):
    out = []
    for p in pick(tier, (2, 3), (2, 3, 4)):
        for m in ([[p + 1, p + 1], [p + 1, 1, p + 1]]):
            for l in (('span', 0), ('span', len(m) - 2), ('knot', 0), ('knot', len(m) - 1)):
                out.append({'p': p, 'm': m, 'loc': list(l)})
    return out
