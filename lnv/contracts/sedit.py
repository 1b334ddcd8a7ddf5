"""C15, C16: structural operations on surfaces."""
from .base import *
import spec
from spec import KV


def same_surface(E, name, S, ku, pu, kv, pv, R, ku2, qu, kv2, qv, fu, fv, swap=False):
    """R is well formed over (ku2, kv2) and equals S on every cell; fu/fv map a parameter of R to one of S; cells of S are found by rank"""
    E.check(name + ': degrees', R['DegreeU'] == qu and R['DegreeV'] == qv)
    E.eq(name + ': u knots', R['KnotVectorU'], ku2.v)
    E.eq(name + ': v knots', R['KnotVectorV'], kv2.v)
    n, m = len(ku2.v) - qu - 1, len(kv2.v) - qv - 1
    P = R['ControlPoints']
    if len(P) != n or any(len(r) != m for r in P):
        E.fail(name + ': control net size', '%dx%s, expected %dx%d' % (len(P), sorted({len(r) for r in P}), n, m))
    for i in ku2.spans(qu):
        u = E.interior('%s.u%d' % (name[:6], i), ku2.v[i], ku2.v[i + 1])
        for j in kv2.spans(qv):
            v = E.interior('%s.v%d' % (name[:6], j), kv2.v[j], kv2.v[j + 1])
            a = spec.surface(ku2, qu, kv2, qv, P, i, u, j, v)
            uu, ri = fu[0](u), fu[1](ku2, i)
            vv, rj = fv[0](v), fv[1](kv2, j)
            if swap:
                uu, vv, ri, rj = vv, uu, rj, ri
            b = spec.surface(ku, pu, kv, pv, S['ControlPoints'], span_at(ku, pu, ri), uu, span_at(kv, pv, rj), vv)
            E.eq('%s: same point on cell (%d,%d)' % (name, i, j), a, b, 1e-5)


def _id(x):
    return x


ID = (_id, lambda k, i: k.r[i])


def shapes2(tier):
    q = [(1, [2, 1, 2], 2, [3, 3]), (2, [3, 1, 3], 1, [2, 2]), (2, [3, 2, 3], 3, [4, 1, 4]), (3, [4, 1, 4], 2, [3, 1, 1, 3]), (2, [3, 3], 2, [3, 2, 1, 3]), (3, [4, 2, 1, 4], 1, [2, 1, 2])]
    if tier == 'big':
        return [(5, [6, 1, 2, 6], 3, [4, 1, 1, 1, 4]), (3, [4, 2, 1, 1, 4], 6, [7, 1, 7]), (7, [8, 8], 2, [3, 1, 1, 2, 3]), (2, [3] + [1] * 5 + [3], 4, [5, 3, 1, 5]), (4, [5, 1, 4, 5], 4, [5, 2, 5])]
    if tier != 'quick':
        q += [(4, [5, 1, 5], 2, [3, 1, 3]), (3, [4, 3, 4], 3, [4, 1, 2, 4]), (1, [2, 1, 1, 2], 5, [6, 6])]
    return q


def c_sins(tier, lits):
    out = []
    for pu, mu, pv, mv in shapes2(tier):
        for U in (True, False):
            p, m = (pu, mu) if U else (pv, mv)
            for l in locs(m, False):
                s = m[l[1]] if l[0] == 'knot' else 0
                for t in sorted({1, p - s, p - s + 2}):
                    if t > 0:
                        out.append({'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'U': U, 'loc': list(l), 'times': t})
    return out


@contract('sinsert', ['NurbsSurface::InsertKnot'], c_sins, trials=4)
def sinsert(E, c):
    U = c['U']
    S, ku, kv, (us, rus), (vs, rvs) = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'], [c['loc']] if U else [], [] if U else [c['loc']])
    x, r = (us[0], rus[0]) if U else (vs[0], rvs[0])
    p, k = (c['pu'], ku) if U else (c['pv'], kv)
    s = k.mult(r) if c['loc'][0] == 'knot' else 0
    t = min(c['times'], max(0, p - s))
    res = E.ok('NurbsSurface::InsertKnot', S, beside(x, c.get('ulp')), c['times'], U, None)
    k2 = k.insert(x, r, t)
    same_surface(E, 'surface knot insertion', S, ku, c['pu'], kv, c['pv'], res.out[0], k2 if U else ku, c['pu'], kv if U else k2, c['pv'], ID, ID)


contract('nearsinsert', ['NurbsSurface::InsertKnot'], beside_cases(c_sins), trials=2, native_only=True, noconf=True,
         note='a parameter that differs from a knot by one rounding error is treated as the knot')(sinsert)


def c_sref(tier, lits):
    out = []
    for pu, mu, pv, mv in shapes2(tier):
        for U in (True, False):
            p, m = (pu, mu) if U else (pv, mv)
            k = len(m) - 1
            pats = [[('span', 0)], [('span', 0), ('span', k - 1)]]
            if k > 1 and m[1] < p:
                pats += [[('knot', 1), ('span', 1)]]
            for x in pats:
                out.append({'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'U': U, 'x': [list(y) for y in x]})
    return out


@contract('srefine', ['NurbsSurface::RefineKnotVector'], c_sref, trials=4)
def srefine(E, c):
    U = c['U']
    S, ku, kv, (us, rus), (vs, rvs) = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'], c['x'] if U else [], [] if U else c['x'])
    xs, rs = (us, rus) if U else (vs, rvs)
    k2 = ku if U else kv
    for x, r in zip(xs, rs):
        k2 = k2.insert(x, r, 1)
    X = [x for _, x in sorted(zip(rs, xs), key=lambda z: z[0])]
    res = E.ok('NurbsSurface::RefineKnotVector', S, X, U, None)
    same_surface(E, 'surface refinement', S, ku, c['pu'], kv, c['pv'], res.out[0], k2 if U else ku, c['pu'], kv if U else k2, c['pv'], ID, ID)


@contract('selevate', ['NurbsSurface::ElevateDegree'], lambda tier, lits: [{'pu': a, 'mu': b, 'pv': c, 'mv': d, 'U': U, 'times': t} for a, b, c, d in shapes2(tier) for U in (True, False) for t in (1, 2)], trials=3)
def selevate(E, c):
    U, t = c['U'], c['times']
    S, ku, kv, _, _ = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'])
    k = ku if U else kv
    k2 = k
    for r in k.distinct():
        k2 = k2.insert(k.v[k.r.index(r)], r, t)
    res = E.ok('NurbsSurface::ElevateDegree', S, t, U, None)
    same_surface(E, 'surface degree elevation', S, ku, c['pu'], kv, c['pv'], res.out[0], k2 if U else ku, c['pu'] + (t if U else 0), kv if U else k2, c['pv'] + (0 if U else t), ID, ID)


@contract('sreduce', ['NurbsSurface::ReduceDegree'], lambda tier, lits: [{'p': p, 'q': q, 'mq': mq, 'U': U} for p in (1, 2, 3) for q, mq in ((1, [2, 2]), (2, [3, 1, 3])) for U in (True, False)], summaries='gprem', trials=4, budget=30)
def sreduce(E, c):
    """a surface elevated in one direction is reduced back"""
    p, U = c['p'], c['U']
    a = (p, [p + 1, p + 1], c['q'], c['mq'])
    if not U:
        a = a[2:] + a[:2]
    S0, ku, kv, _, _ = draw_surface(E, *a)
    P = S0['ControlPoints']
    tr = lambda M: [list(x) for x in zip(*M)]
    rows = tr(P) if U else P
    rows = [spec.elevate_bezier(r) for r in rows]
    k = ku if U else kv
    k2 = k.insert(k.v[0], 0, 1).insert(k.v[-1], 100, 1)
    S = dict(S0, ControlPoints=tr(rows) if U else rows)
    S['KnotVectorU' if U else 'KnotVectorV'] = k2.v
    S['DegreeU' if U else 'DegreeV'] = p + 1
    res = E.ok('NurbsSurface::ReduceDegree', S, U, None)
    E.check('an exactly reducible surface is reduced', bool(res.ret))
    same_surface(E, 'surface degree reduction', S0, ku, a[0], kv, a[2], res.out[0], ku, a[0], kv, a[2], ID, ID)


def c_sdec(tier, lits):
    out = [{'pu': a, 'mu': b, 'pv': c, 'mv': d} for a, b, c, d in shapes2(tier)]
    out += [{'pu': 2, 'mu': [3, 2, 3], 'pv': 2, 'mv': [3, 2, 1, 3]}, {'pu': 1, 'mu': [2, 1, 1, 2], 'pv': 3, 'mv': [4, 3, 4]}, {'pu': 3, 'mu': [4, 2, 4], 'pv': 1, 'mv': [2, 1, 2]}]
    return out


@contract('sdecompose', ['NurbsSurface::DecomposeToBeziers'], c_sdec, trials=6)
def sdecompose(E, c):
    pu, pv = c['pu'], c['pv']
    S, ku, kv, _, _ = draw_surface(E, pu, c['mu'], pv, c['mv'])
    L = E.ok('NurbsSurface::DecomposeToBeziers', S).ret
    cells = [(i, j) for i in ku.spans(pu) for j in kv.spans(pv)]
    if len(L) != len(cells):
        E.fail('one Bezier patch per non-empty cell', '%d, expected %d' % (len(L), len(cells)))
    for (i, j), B in zip(cells, L):
        E.check('patch degrees', B['DegreeU'] == pu and B['DegreeV'] == pv)
        E.eq('patch u knots', B['KnotVectorU'], [0] * (pu + 1) + [1] * (pu + 1))
        E.eq('patch v knots', B['KnotVectorV'], [0] * (pv + 1) + [1] * (pv + 1))
        u = E.interior('d.u%d' % i, ku.v[i], ku.v[i + 1])
        v = E.interior('d.v%d' % j, kv.v[j], kv.v[j + 1])
        s, t = (u - ku.v[i]) / (ku.v[i + 1] - ku.v[i]), (v - kv.v[j]) / (kv.v[j + 1] - kv.v[j])
        got = spec.blossom_bezier([spec.blossom_bezier(row, t) for row in B['ControlPoints']], s)
        E.eq('patch (%d,%d) reproduces the surface on its cell' % (i, j), got, spec.surface(ku, pu, kv, pv, S['ControlPoints'], i, u, j, v), 1e-5)


# ------------------------------------------------------------------ C16
def mirrored(k):
    """knots of the reversed parametrisation on the same domain; rank mapping back"""
    a, b = k.v[0], k.v[-1]
    R = max(k.r)
    return KV([a + b - x for x in reversed(k.v)], [R - r for r in reversed(k.r)])


def mirror_of(k):
    a, b = k.v[0], k.v[-1]
    R = max(k.r)
    return (lambda x: a + b - x, lambda k2, i: R - k2.r[i + 1])


@contract('sreverse', ['NurbsSurface::Reverse'], lambda tier, lits: [{'pu': a, 'mu': b, 'pv': c, 'mv': d, 'dir': r} for a, b, c, d in shapes2(tier) for r in (0, 1, 2)], trials=4)
def sreverse(E, c):
    S, ku, kv, _, _ = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'])
    res = E.ok('NurbsSurface::Reverse', S, c['dir'], None)
    U, V = c['dir'] in (0, 1), c['dir'] in (0, 2)
    same_surface(E, 'surface reversal', S, ku, c['pu'], kv, c['pv'], res.out[0], mirrored(ku) if U else ku, c['pu'], mirrored(kv) if V else kv, c['pv'],
                 mirror_of(ku) if U else ID, mirror_of(kv) if V else ID)


@contract('sswap', ['NurbsSurface::Swap'], lambda tier, lits: [{'pu': a, 'mu': b, 'pv': c, 'mv': d} for a, b, c, d in shapes2(tier)], trials=4)
def sswap(E, c):
    S, ku, kv, _, _ = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'])
    res = E.ok('NurbsSurface::Swap', S, None)
    same_surface(E, 'swap of u and v', S, ku, c['pu'], kv, c['pv'], res.out[0], kv, c['pv'], ku, c['pu'], ID, ID, swap=True)


@contract('sreparam', ['NurbsSurface::Reparametrize', 'KnotVectorUtils::Rescale'], lambda tier, lits: [{'pu': a, 'mu': b, 'pv': c, 'mv': d, 'keep': k} for a, b, c, d in shapes2(tier) for k in (0, 1, 2, 3)], trials=4)
def sreparam(E, c):
    S, ku, kv, _, _ = draw_surface(E, c['pu'], c['mu'], c['pv'], c['mv'])
    a0, a1 = (ku.v[0], ku.v[-1]) if c['keep'] & 1 else E.chain(['a0', 'a1'])
    b0, b1 = (kv.v[0], kv.v[-1]) if c['keep'] & 2 else E.chain(['b0', 'b1'])
    res = E.ok('NurbsSurface::Reparametrize', S, a0, a1, b0, b1, None)

    def aff(k, lo, hi):
        s = (hi - lo) / (k.v[-1] - k.v[0])
        k2 = KV([lo + (x - k.v[0]) * s for x in k.v], k.r)
        return k2, (lambda y: k.v[0] + (y - lo) / s, lambda kk, i: kk.r[i])
    ku2, fu = aff(ku, a0, a1)
    kv2, fv = aff(kv, b0, b1)
    same_surface(E, 'reparametrisation', S, ku, c['pu'], kv, c['pv'], res.out[0], ku2, c['pu'], kv2, c['pv'], fu, fv)


@contract('siso', ['NurbsSurface::GetIsoCurve'], lambda tier, lits: [{'pu': a, 'mu': b, 'pv': c, 'mv': d, 'U': U, 'loc': list(l)} for a, b, c, d in shapes2(tier) for U in (True, False) for l in locs(d if U else b)], trials=4)
def siso(E, c):
    """isUDirection: the iso curve runs in u at a fixed v"""
    U, pu, pv = c['U'], c['pu'], c['pv']
    S, ku, kv, (us, rus), (vs, rvs) = draw_surface(E, pu, c['mu'], pv, c['mv'], [] if U else [c['loc']], [c['loc']] if U else [])
    x, r = (vs[0], rvs[0]) if U else (us[0], rus[0])
    C = E.ok('NurbsSurface::GetIsoCurve', S, x, U).ret
    k, p = (ku, pu) if U else (kv, pv)
    wellformed_curve(E, 'iso curve', C, p, k)
    sp = at(kv if U else ku, pv if U else pu, c['loc'], r)
    for i in k.spans(p):
        t = E.interior('i.t%d' % i, k.v[i], k.v[i + 1])
        a = spec.curve(k, p, C['ControlPoints'], i, t)
        b = spec.surface(ku, pu, kv, pv, S['ControlPoints'], i if U else sp, t if U else x, sp if U else i, x if U else t)
        E.eq('iso curve lies on the surface (span %d)' % i, a, b, 1e-5)
