"""C06, C07: surface points, derivatives, normals, curvature."""
from .base import *
import spec


def uvshapes(tier):
    q = [(1, [2, 2], 1, [2, 2]), (2, [3, 1, 3], 1, [2, 1, 2]), (1, [2, 1, 2], 2, [3, 1, 3]), (2, [3, 2, 3], 2, [3, 1, 3]), (3, [4, 4], 2, [3, 1, 1, 3]),
         (2, [3, 1, 1, 3], 3, [4, 2, 4]), (3, [4, 1, 4], 3, [4, 4]), (4, [5, 5], 1, [2, 1, 1, 2]), (1, [2, 2], 5, [6, 2, 6]), (3, [4, 3, 4], 1, [2, 2])]
    if tier == 'big':
        return [(5, [6, 1, 2, 6], 3, [4, 1, 1, 1, 4]), (3, [4, 2, 1, 1, 4], 6, [7, 1, 7]), (7, [8, 8], 2, [3, 1, 1, 2, 3]), (2, [3] + [1] * 5 + [3], 4, [5, 3, 1, 5]), (4, [5, 1, 4, 5], 4, [5, 2, 5]), (5, [6, 2, 6], 5, [6, 1, 6])]
    if tier != 'quick':
        q += [(3, [4, 1, 2, 4], 3, [4, 1, 4]), (4, [5, 1, 5], 3, [4, 2, 4]), (5, [6, 6], 4, [5, 1, 5]), (6, [7, 7], 2, [3, 1, 3]), (2, [3, 1, 3], 7, [8, 8])]
    return q


def c_uv(tier, lits):
    out = []
    for pu, mu, pv, mv in uvshapes(tier):
        lu, lv = locs(mu), locs(mv)
        pairs = [(a, b) for a in lu for b in lv]
        if tier == 'quick' and len(pairs) > 9:
            n = max(len(lu), len(lv))
            pairs = sorted({(lu[i % len(lu)], lv[j % len(lv)]) for i in range(n) for j in (i, i + 1)})
        for a, b in pairs:
            out.append({'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'lu': list(a), 'lv': list(b)})
    return out


def draw(E, c, rational=True, name=''):
    S, ku, kv, ((u,), (ru,)), ((v,), (rv,)) = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'], [c['lu']], [c['lv']], rational, name)
    return S, ku, kv, u, v, at(ku, c['pu'], c['lu'], ru), at(kv, c['pv'], c['lv'], rv)


def sval(c, S, ku, kv, u, v, su, sv, k=0, l=0):
    return spec.surface(ku, c['pu'], kv, c['pv'], S['ControlPoints'], su, u, sv, v, k, l)


@contract('spt', ['NurbsSurface::GetPointOnSurface', 'BsplineSurface::GetPointOnSurface'], c_uv, trials=4)
def spt(E, c):
    d = draw(E, c)
    S, ku, kv, u, v, su, sv = d
    got = E.ok('NurbsSurface::GetPointOnSurface', S, (u, v)).ret
    E.eq('S(u,v) = sum N N w P / sum N N w', got, spec.proj(sval(c, *d)))
    if c['lu'][0] == 'knot' and c['lu'][1] in (0, len(c['mu']) - 1) and c['lv'][0] == 'knot' and c['lv'][1] in (0, len(c['mv']) - 1):
        i = 0 if c['lu'][1] == 0 else -1
        j = 0 if c['lv'][1] == 0 else -1
        E.eq('corner of the patch is the corner control point', got, spec.proj(S['ControlPoints'][i][j]))
    d = draw(E, c, False, 'b')
    E.eq('non-rational S(u,v) = sum N N P', E.ok('BsplineSurface::GetPointOnSurface|XYZ (const', d[0], (d[3], d[4])).ret, sval(c, *d))


def c_sder(tier, lits):
    out = []
    for k, c in enumerate(c_uv(tier, lits)):
        ds = [1, 2] if c['pu'] + c['pv'] <= 3 else [1 + k % 2]
        if c['pu'] + c['pv'] <= 4 and k % 4 == 0:
            ds = ds + [3]
        if tier == 'big':
            ds = [3, 4, 5]
        for d in ds:
            out.append(dict(c, d=d))
    return out


def want(c, D, d, dim):
    z = (0,) * dim
    return {(k, l): (sval(c, *D, k, l) if k <= c['pu'] and l <= c['pv'] else z) for k in range(d + 1) for l in range(d + 1 - k)}


@contract('bssders', ['BsplineSurface::ComputeDerivatives', 'BsplineSurface::ComputeFirstOrderDerivative'], c_sder, trials=4)
def bssders(E, c):
    d = c['d']
    D = draw(E, c, False)
    W = want(c, D, d, 3)
    uv = (D[3], D[4])
    got = E.ok('BsplineSurface::ComputeDerivatives|vector<vector<XYZ>> (', D[0], d, uv).ret
    E.check('derivative table size', len(got) == d + 1 and all(len(r) == d + 1 for r in got))
    for (k, l), w in W.items():
        E.eq('derivative (%d,%d)' % (k, l), got[k][l], w, 1e-5)
    if d == 1:
        g = E.ok('BsplineSurface::ComputeFirstOrderDerivative|XYZ (', D[0], uv, None).out[0]
        for (k, l), w in W.items():
            E.eq('first-order variant (%d,%d)' % (k, l), g[k][l], w, 1e-5)
    if c['pu'] + c['pv'] <= 3:
        D = draw(E, c, True, 'r')
        got = E.ok('BsplineSurface::ComputeDerivatives|vector<vector<XYZW>> (', D[0], d, (D[3], D[4])).ret
        for (k, l), w in want(c, D, d, 4).items():
            E.eq('homogeneous derivative (%d,%d)' % (k, l), got[k][l], w, 1e-5)


@contract('bssdersall', ['BsplineSurface::ComputeDerivativesByAllBasisFunctions', 'BsplineSurface::ComputeControlPointsOfDerivatives'], lambda tier, lits: c_sder(tier, lits)[::2 if tier != 'big' else 1] + [dict(c, d=min(c['pu'], c['pv'])) for c in c_uv(tier, lits)[1::7]], trials=4)
def bssdersall(E, c):
    d = c['d']
    D = draw(E, c, False)
    got = E.ok('BsplineSurface::ComputeDerivativesByAllBasisFunctions|vector<vector<XYZ>> (', D[0], d, (D[3], D[4])).ret
    for (k, l), w in want(c, D, d, 3).items():
        E.eq('derivative (%d,%d) by all basis functions' % (k, l), got[k][l], w, 1e-5)


@contract('nusders', ['NurbsSurface::ComputeRationalSurfaceDerivatives', 'NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative'], c_sder, trials=4)
def nusders(E, c):
    d = c['d']
    D = draw(E, c)
    W = want(c, D, d, 4)
    R = spec.ratders2([[W.get((k, l), (0,) * 4) for l in range(d + 1)] for k in range(d + 1)])
    uv = (D[3], D[4])
    got = E.ok('NurbsSurface::ComputeRationalSurfaceDerivatives', D[0], d, uv).ret
    E.check('derivative table size', len(got) == d + 1 and all(len(r) == d + 1 for r in got))
    for k in range(d + 1):
        for l in range(d + 1 - k):
            E.eq('rational derivative (%d,%d)' % (k, l), got[k][l], R[k][l], 1e-5)
    if d == 1:
        o = E.ok('NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative', D[0], uv, None, None, None).out
        E.eq('first-order variant: point', o[0], R[0][0], 1e-5)
        E.eq('first-order variant: Su', o[1], R[1][0], 1e-5)
        E.eq('first-order variant: Sv', o[2], R[0][1], 1e-5)


def c_geo(tier, lits):
    out = []
    for pu, mu, pv, mv in [(1, [2, 2], 1, [2, 2]), (2, [3, 3], 1, [2, 1, 2]), (2, [3, 1, 3], 2, [3, 3])]:
        for a in (('span', 0), ('knot', 0), ('knot', len(mu) - 1)):
            for b in (('span', len(mv) - 2), ('knot', 0)):
                out.append({'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'lu': list(a), 'lv': list(b)})
    return out


def rat(E, c, d):
    D = draw(E, c)
    W = want(c, D, d, 4)
    return D, spec.ratders2([[W.get((k, l), (0,) * 4) for l in range(d + 1)] for k in range(d + 1)])


@contract('snormal', ['NurbsSurface::Normal'], c_geo, trials=10, native_only=False, summaries='gpz', budget=30,
          note='Su and Sv independent; the result is parallel to Su x Sv with unit length')
def snormal(E, c):
    D, R = rat(E, c, 1)
    n = spec.cross(R[1][0], R[0][1])
    l2 = spec.dot(n, n)
    if not E.sym:
        E.assume(l2 > 1e-4 and spec.dot(R[1][0], R[1][0]) > 1e-4)
    got = E.ok('NurbsSurface::Normal', D[0], (D[3], D[4])).ret
    L = E.sqrt(l2)
    if not E.sym:
        E.eq('unit normal along Su x Sv', got, tuple(x / L for x in n), 1e-5)
    else:
        E.eq('normal parallel to Su x Sv', spec.cross(got, n), (0, 0, 0))
        E.eq('normal has unit length', spec.dot(got, got), 1)


KINDS = ['Maximum', 'Minimum', 'Gauss', 'Mean', 'Abs', 'Rms']


def curvatures(E, c):
    D, R = rat(E, c, 2)
    Su, Sv, Suu, Svv, Suv = R[1][0], R[0][1], R[2][0], R[0][2], R[1][1]
    n = spec.cross(Su, Sv)
    l2 = spec.dot(n, n)
    if not E.sym:
        E.assume(l2 > 1e-2 and spec.dot(Su, Su) > 1e-2)
    n = spec.vmul(n, 1 / E.sqrt(l2))
    L, M, N = spec.dot(Suu, n), spec.dot(Suv, n), spec.dot(Svv, n)
    e, f, g = spec.dot(Su, Su), spec.dot(Su, Sv), spec.dot(Sv, Sv)
    K = (L * N - M * M) / (e * g - f * f)
    H = (e * N + g * L - 2 * f * M) / (2 * (e * g - f * f))
    return D, K, H


@contract('scurv', ['NurbsSurface::Curvature'], lambda tier, lits: [dict(c, kind=k) for c in c_geo(tier, lits)[::2 if tier == 'quick' else 1] for k in (2, 3)], trials=8, nat_budget=10, summaries='gpz')
def scurv(E, c):
    D, K, H = curvatures(E, c)
    got = E.ok('NurbsSurface::Curvature', D[0], c['kind'], (D[3], D[4])).ret
    if E.sym and c['kind'] == 3:
        E.eq('Mean curvature, squared', got * got, H * H)
    else:
        E.eq('%s curvature' % KINDS[c['kind']], got, K if c['kind'] == 2 else H, 1e-4)


@contract('scurvp', ['NurbsSurface::Curvature'], lambda tier, lits: [dict(c, kind=k) for c in c_geo(tier, lits) for k in (0, 1, 4, 5)], native_only=True, trials=10, nat_budget=10)
def scurvp(E, c):
    D, K, H = curvatures(E, c)
    r = E.sqrt(max(0, H * H - K))
    k1, k2 = H + r, H - r
    w = {0: k1, 1: k2, 4: abs(k1) + abs(k2), 5: E.sqrt(k1 * k1 + k2 * k2)}[c['kind']]
    got = E.ok('NurbsSurface::Curvature', D[0], c['kind'], (D[3], D[4])).ret
    E.eq('%s curvature' % KINDS[c['kind']], got, w, 1e-4)
