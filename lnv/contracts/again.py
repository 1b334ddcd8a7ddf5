"""The evaluation functions depend on their arguments only: several curves / surfaces / volumes over one domain are
evaluated alternately at one parameter, and each result is that of its own object."""
from .base import *
import spec
from fractions import Fraction
from spec import KV


def _kv(E, a, h, p, fs):
    fs = [Fraction(x) for x in fs]
    c = (lambda x: x) if E.sym else float
    vals = [a] * (p + 1) + [a + h * c(f) for f in fs] + [a + h] * (p + 1)
    rk = [0] * (p + 1) + [100 * (1 + sorted(set(fs)).index(f)) for f in fs] + [10000] * (p + 1)
    return KV(vals, rk)


def _span(kv, p, fs, q):
    return p + sum(1 for f in fs if Fraction(f) <= Fraction(q))


# (degree, interior knots at these fractions of the domain)
SETS = [[(2, ['1/4', '3/4']), (2, ['1/8', '1/3']), (3, ['3/5']), (1, ['2/5', '2/3', '5/6'])],
        [(3, ['1/4', '1/2', '3/4']), (3, ['1/8', '1/6', '1/5']), (4, []), (2, ['5/8', '5/8'])],
        [(1, ['1/4']), (1, ['3/4']), (2, ['1/5', '1/5']), (5, ['1/2'])]]
ORDER = (0, 1, 0, 2, 1, 3, 0, 2)
QS = ['7/16', '3/4', '1/2']


def _cases():
    return [{'s': s, 'q': q} for s in range(len(SETS)) for q in QS]


def _objs(E, s, q, tag=''):
    # fixed knots in the proof (the values are the business of the other contracts), drawn ones in the native runs
    a, h = (Fraction(1), Fraction(2)) if E.sym else (E.real('a' + tag), E.pos('h' + tag))
    u = a + h * (Fraction(q) if E.sym else float(Fraction(q)))
    return u, [(p, kv, _span(kv, p, fs, q)) for p, fs in SETS[s] for kv in [_kv(E, a, h, p, fs)]]


@contract('again', ['NurbsCurve::GetPointOnCurve', 'BsplineCurve::GetPointOnCurve', 'NurbsCurve::ComputeRationalCurveDerivatives'], _cases(), trials=3, budget=30,
          note='curves over one domain evaluated in turn at one parameter')
def again(E, c):
    u, ob = _objs(E, c['s'], c['q'])
    C = [{'Degree': p, 'KnotVector': kv.v, 'ControlPoints': E.wpoints('P%d' % k, len(kv.v) - p - 1)} for k, (p, kv, _) in enumerate(ob)]
    for n, k in enumerate(ORDER):
        p, kv, sp = ob[k]
        E.eq('call %d: the point of curve %d' % (n, k), E.ok('NurbsCurve::GetPointOnCurve', C[k], u).ret, spec.proj(spec.curve(kv, p, C[k]['ControlPoints'], sp, u)))
    for n, k in enumerate(ORDER):
        p, kv, sp = ob[k]
        H = [spec.curve(kv, p, C[k]['ControlPoints'], sp, u, d) if d <= p else (0, 0, 0, 0) for d in range(3)]
        E.eq('call %d: derivatives of curve %d' % (n, k), E.ok('NurbsCurve::ComputeRationalCurveDerivatives', C[k], 2, u).ret, spec.ratders(H), 1e-5)


@contract('bagain', ['Polynomials::GetKnotSpanIndex', 'Polynomials::GetKnotMultiplicity', 'Polynomials::BasisFunctions', 'Polynomials::BasisFunctionsDerivatives', 'Polynomials::OneBasisFunction'], _cases(), trials=3, budget=30,
          note='knot vectors over one domain used in turn at one parameter')
def bagain(E, c):
    u, ob = _objs(E, c['s'], c['q'])
    for n, k in enumerate(ORDER):
        p, kv, sp = ob[k]
        E.check('call %d: span' % n, E.ok('Polynomials::GetKnotSpanIndex', p, kv.v, u).ret == sp)
        E.check('call %d: multiplicity' % n, E.ok('Polynomials::GetKnotMultiplicity', kv.v, u).ret == sum(1 for f in SETS[c['s']][k][1] if Fraction(f) == Fraction(c['q'])))
        D = spec.dN(kv, p, sp, u, 0)
        E.eq('call %d: basis functions' % n, list(E.ok('Polynomials::BasisFunctions', sp, p, kv.v, u, None).out[0])[:p + 1], [D.get(sp - p + j, 0) for j in range(p + 1)])
        E.eq('call %d: one basis function' % n, E.ok('Polynomials::OneBasisFunction', sp - p, p, kv.v, u).ret, D.get(sp - p, 0))
    for n, k in enumerate(ORDER):
        p, kv, sp = ob[k]
        for d in range(min(2, p) + 1):
            D = spec.dN(kv, p, sp, u, d)
            got = E.ok('Polynomials::BasisFunctionsDerivatives', sp, p, min(2, p), kv.v, u).ret
            E.eq('call %d: derivatives of order %d' % (n, d), got[d], [D.get(sp - p + j, 0) for j in range(p + 1)])


S2 = [[(0, 1), (1, 0), (1, 1), (2, 0)], [(3, 1), (1, 3), (0, 0), (1, 2)]]


@contract('sagain', ['NurbsSurface::GetPointOnSurface', 'NurbsSurface::ComputeRationalSurfaceDerivatives', 'NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative'], [{'s': s, 't': t, 'q': q, 'r': r} for s, t, q, r in ((0, 0, '7/16', '1/2'), (2, 1, '3/4', '7/16'), (2, 0, '1/2', '3/4'))], trials=3, budget=40,
          note='surfaces over one domain evaluated in turn at one parameter')
def sagain(E, c):
    u, ou = _objs(E, c['s'], c['q'])
    v, ov = _objs(E, 2, c['r'], 'v')
    S, X = [], []
    for k, (i, j) in enumerate(S2[c['t']]):
        (pu, ku, su), (pv, kv, sv) = ou[i], ov[j]
        N = [E.wpoints('P%d.%d' % (k, r), len(kv.v) - pv - 1) for r in range(len(ku.v) - pu - 1)]
        S.append({'DegreeU': pu, 'DegreeV': pv, 'KnotVectorU': ku.v, 'KnotVectorV': kv.v, 'ControlPoints': N})
        X.append((ku, pu, kv, pv, N, su, u, sv, v))
    for n, k in enumerate(ORDER):
        E.eq('call %d: the point of surface %d' % (n, k), E.ok('NurbsSurface::GetPointOnSurface', S[k], (u, v)).ret, spec.proj(spec.surface(*X[k])))
    for n, k in enumerate(ORDER[:6]):
        W = [[spec.surface(*X[k], i, j) for j in range(2)] for i in range(2)]
        R = spec.ratders2(W)
        got = E.ok('NurbsSurface::ComputeRationalSurfaceDerivatives', S[k], 1, (u, v)).ret
        E.eq('call %d: derivatives of surface %d' % (n, k), [got[0][0], got[1][0], got[0][1]], [R[0][0], R[1][0], R[0][1]], 1e-5)
        g = E.ok('NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative', S[k], (u, v), (0, 0, 0), (0, 0, 0), (0, 0, 0)).out
        E.eq('call %d: first derivatives of surface %d' % (n, k), list(g), [R[0][0], R[1][0], R[0][1]], 1e-5)


@contract('vagain', ['NurbsVolume::GetPointOnVolume'], [{'q': q, 'r': r, 'w': w} for q, r, w in (('7/16', '1/2', '3/4'), ('1/2', '3/4', '7/16'))], trials=3, budget=40,
          note='volumes over one domain evaluated in turn at one parameter')
def vagain(E, c):
    o = [_objs(E, 2, c[x], x) for x in 'qrw']
    V, X = [], []
    for k, idx in enumerate(((0, 1, 0), (1, 0, 1), (0, 0, 1), (1, 1, 0))):
        (pu, ku, su), (pv, kv, sv), (pw, kw, sw) = (o[d][1][i] for d, i in enumerate(idx))
        N = [[E.wpoints('P%d.%d.%d' % (k, r, s), len(kw.v) - pw - 1) for s in range(len(kv.v) - pv - 1)] for r in range(len(ku.v) - pu - 1)]
        V.append({'DegreeU': pu, 'DegreeV': pv, 'DegreeW': pw, 'KnotVectorU': ku.v, 'KnotVectorV': kv.v, 'KnotVectorW': kw.v, 'ControlPoints': N})
        X.append((ku, pu, kv, pv, kw, pw, N, su, o[0][0], sv, o[1][0], sw, o[2][0]))
    for n, k in enumerate(ORDER):
        E.eq('call %d: the point of volume %d' % (n, k), E.ok('NurbsVolume::GetPointOnVolume', V[k], tuple(x[0] for x in o)).ret, spec.proj(spec.volume(*X[k])))
