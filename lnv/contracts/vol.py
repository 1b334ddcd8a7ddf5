"""C08: volume points, derivatives, iso curves; C17: structural operations on volumes."""
from .base import *
import spec
from spec import KV
from math import comb
from .sedit import mirrored, mirror_of, ID


def vshapes(tier):
    q = [((1, 1, 1), ([2, 2], [2, 1, 2], [2, 2])), ((2, 1, 1), ([3, 1, 3], [2, 2], [2, 1, 2])), ((1, 2, 1), ([2, 1, 1, 2], [3, 2, 3], [2, 2])), ((1, 1, 3), ([2, 2], [2, 1, 2], [4, 1, 4])), ((2, 2, 2), ([3, 3], [3, 1, 3], [3, 3]))]
    if tier == 'big':
        return [((4, 2, 3), ([5, 1, 5], [3, 1, 1, 3], [4, 2, 4])), ((2, 5, 1), ([3, 2, 1, 3], [6, 6], [2, 1, 1, 1, 2])), ((3, 3, 4), ([4, 1, 4], [4, 4], [5, 1, 5])), ((1, 2, 6), ([2, 2], [3, 3], [7, 1, 7])), ((7, 1, 2), ([8, 8], [2, 1, 2], [3, 1, 3]))]
    if tier != 'quick':
        q += [((3, 1, 2), ([4, 2, 4], [2, 1, 2], [3, 1, 3])), ((1, 3, 2), ([2, 1, 2], [4, 3, 4], [3, 2, 1, 3])), ((2, 3, 1), ([3, 1, 2, 3], [4, 4], [2, 1, 1, 2]))]
    return q


def c_vpt(tier, lits):
    out = []
    for ps, ms in vshapes(tier):
        L = [locs(m) for m in ms]
        n = max(len(x) for x in L)
        s = sorted({tuple(x[(i * (k + 1) + j) % len(x)] for k, x in enumerate(L)) for i in range(n) for j in range(2 if tier == 'quick' else 3)})
        for t in s:
            out.append({'ps': list(ps), 'ms': [list(m) for m in ms], 'l': [list(x) for x in t]})
    return out


def draw(E, c):
    V, ks, vals, ranks = draw_volume(E, c['ps'], c['ms'], [[l] for l in c['l']])
    sp = [at(k, p, l, r[0]) for k, p, l, r in zip(ks, c['ps'], c['l'], ranks)]
    return V, ks, [v[0] for v in vals], sp


def vval(P, ps, ks, x, sp, d=(0, 0, 0)):
    return spec.volume(ks[0], ps[0], ks[1], ps[1], ks[2], ps[2], P, sp[0], x[0], sp[1], x[1], sp[2], x[2], *d)


@contract('vpt', ['NurbsVolume::GetPointOnVolume'], c_vpt, trials=4)
def vpt(E, c):
    V, ks, x, sp = draw(E, c)
    got = E.ok('NurbsVolume::GetPointOnVolume', V, tuple(x)).ret
    E.eq('V(u,v,w) = sum N N N w P / sum N N N w', got, spec.proj(vval(V['ControlPoints'], c['ps'], ks, x, sp)))


def ratders3(D, d):
    out = {}
    w0 = D[(0, 0, 0)][-1]
    for t in sorted(D, key=sum):
        v = tuple(D[t][:-1])
        for i in range(t[0] + 1):
            for j in range(t[1] + 1):
                for k in range(t[2] + 1):
                    if i + j + k:
                        v = spec.vsub(v, spec.vmul(out[(t[0] - i, t[1] - j, t[2] - k)], comb(t[0], i) * comb(t[1], j) * comb(t[2], k) * D[(i, j, k)][-1]))
        out[t] = tuple(x / w0 for x in v)
    return out


@contract('vders', ['NurbsVolume::ComputeVolumeRationalDerivatives'], lambda tier, lits: [dict(c, d=d) for k, c in enumerate(c_vpt(tier, lits)) for d in ((1, 2) if sum(c['ps']) <= 4 else (2, 3) if tier == 'big' else (1,)) if tier != 'quick' or k % 2 == 0 or d == 1] + [{'ps': ps, 'ms': [[p + 1, p + 1] for p in ps], 'l': [['span', 0]] * 3, 'd': d} for ps, d in (([1, 2, 2], 4), ([2, 1, 2], 4), ([2, 2, 1], 4), ([1, 1, 1], 3), ([1, 3, 1], 4)) if tier != 'big'], trials=3, budget=60)
def vders(E, c):
    V, ks, x, sp = draw(E, c)
    d = c['d']
    D = {}
    for i in range(d + 1):
        for j in range(d + 1 - i):
            for k in range(d + 1 - i - j):
                t = (i, j, k)
                D[t] = vval(V['ControlPoints'], c['ps'], ks, x, sp, t) if all(a <= b for a, b in zip(t, c['ps'])) else (0, 0, 0, 0)
    W = ratders3(D, d)
    got = E.ok('NurbsVolume::ComputeVolumeRationalDerivatives', V, d, tuple(x)).ret
    E.check('derivative table size', len(got) == d + 1 and all(len(r) == d + 1 and all(len(q) == d + 1 for q in r) for r in got))
    for (i, j, k), w in W.items():
        E.eq('derivative (%d,%d,%d)' % (i, j, k), got[i][j][k], w, 1e-5)


@contract('viso', ['NurbsVolume::GetIsoCurve'], lambda tier, lits: [dict(c, dir=d) for c in c_vpt(tier, lits)[::2] for d in (0, 1, 2)], trials=4, note='parameter domain above -1 (the value -1 selects the running direction)')
def viso(E, c):
    V, ks, x, sp = draw(E, c)
    d = c['dir']
    from fractions import Fraction
    for k in ks:
        E.assume(E.gt0(k.v[0] + Fraction(1, 2)) if E.sym else k.v[0] > -0.5)
    q = list(x)
    q[d] = -1 if E.sym else -1.0
    C = E.ok('NurbsVolume::GetIsoCurve', V, tuple(q)).ret
    k, p = ks[d], c['ps'][d]
    wellformed_curve(E, 'iso curve', C, p, k)
    for i in k.spans(p):
        t = E.interior('i%d' % i, k.v[i], k.v[i + 1])
        y, s = list(x), list(sp)
        y[d], s[d] = t, i
        E.eq('iso curve lies in the volume (span %d)' % i, spec.curve(k, p, C['ControlPoints'], i, t), vval(V['ControlPoints'], c['ps'], ks, y, s), 1e-5)


# ------------------------------------------------------------------ C17
KN = ('KnotVectorU', 'KnotVectorV', 'KnotVectorW')
DG = ('DegreeU', 'DegreeV', 'DegreeW')


def same_volume(E, name, V, ks, ps, R, ks2, qs, f=(ID, ID, ID), perm=(0, 1, 2)):
    """R is well formed over ks2 and equals V on every cell; axis a of R is axis perm[a] of V, f[a] maps its parameter"""
    E.check(name + ': degrees', [R[x] for x in DG] == list(qs))
    for a in range(3):
        E.eq(name + ': knots %d' % a, R[KN[a]], ks2[a].v)
    n = [len(k.v) - q - 1 for k, q in zip(ks2, qs)]
    P = R['ControlPoints']
    if len(P) != n[0] or any(len(r) != n[1] or any(len(s) != n[2] for s in r) for r in P):
        E.fail(name + ': control net size', '%s' % [len(P), sorted({len(r) for r in P}), sorted({len(s) for r in P for s in r})])
    for i in ks2[0].spans(qs[0]):
        for j in ks2[1].spans(qs[1]):
            for k in ks2[2].spans(qs[2]):
                sp = (i, j, k)
                x = [E.interior('%s.%d.%d' % (name[:6], a, sp[a]), ks2[a].v[sp[a]], ks2[a].v[sp[a] + 1]) for a in range(3)]
                y, s = [None] * 3, [None] * 3
                for a in range(3):
                    b = perm[a]
                    y[b] = f[a][0](x[a])
                    s[b] = span_at(ks[b], ps[b], f[a][1](ks2[a], sp[a]))
                E.eq('%s: same point on cell %s' % (name, sp), vval(P, qs, ks2, x, sp), vval(V['ControlPoints'], ps, ks, y, s), 1e-5)


def c_dir(tier):
    for ps, ms in vshapes(tier):
        for d in range(3):
            yield {'ps': list(ps), 'ms': [list(m) for m in ms], 'dir': d}


def c_vins(tier, lits):
    out = []
    for c in c_dir(tier):
        p, m = c['ps'][c['dir']], c['ms'][c['dir']]
        for l in locs(m, False):
            s = m[l[1]] if l[0] == 'knot' else 0
            for t in sorted({1, p - s, p - s + 1}):
                if t > 0:
                    out.append(dict(c, loc=list(l), times=t))
    return out


def with_axis(ks, d, k):
    return [k if a == d else x for a, x in enumerate(ks)]


@contract('vinsert', ['NurbsVolume::InsertKnot'], c_vins, trials=3)
def vinsert(E, c):
    d = c['dir']
    V, ks, vals, ranks = draw_volume(E, c['ps'], c['ms'], [[c['loc']] if a == d else [] for a in range(3)])
    x, r, p = vals[d][0], ranks[d][0], c['ps'][d]
    s = ks[d].mult(r) if c['loc'][0] == 'knot' else 0
    t = min(c['times'], max(0, p - s))
    R = E.ok('NurbsVolume::InsertKnot', V, beside(x, c.get('ulp')), c['times'], d, None).out[0]
    same_volume(E, 'volume knot insertion', V, ks, c['ps'], R, with_axis(ks, d, ks[d].insert(x, r, t)), c['ps'])


def c_vref(tier, lits):
    out = []
    for c in c_dir(tier):
        p, m = c['ps'][c['dir']], c['ms'][c['dir']]
        k = len(m) - 1
        for x in [[('span', 0)], [('span', 0), ('span', k - 1)]] + ([[('knot', 1), ('span', 1)]] if k > 1 and m[1] < p else []):
            out.append(dict(c, x=[list(y) for y in x]))
    return out


@contract('vrefine', ['NurbsVolume::RefineKnotVector'], c_vref, trials=3)
def vrefine(E, c):
    d = c['dir']
    V, ks, vals, ranks = draw_volume(E, c['ps'], c['ms'], [c['x'] if a == d else [] for a in range(3)])
    k2 = ks[d]
    for x, r in zip(vals[d], ranks[d]):
        k2 = k2.insert(x, r, 1)
    X = [x for _, x in sorted(zip(ranks[d], vals[d]), key=lambda z: z[0])]
    R = E.ok('NurbsVolume::RefineKnotVector', V, X, d, None).out[0]
    same_volume(E, 'volume refinement', V, ks, c['ps'], R, with_axis(ks, d, k2), c['ps'])


@contract('velevate', ['NurbsVolume::ElevateDegree'], lambda tier, lits: [dict(c, times=t) for c in c_dir(tier) for t in (1, 2)], trials=3)
def velevate(E, c):
    d, t = c['dir'], c['times']
    V, ks, _, _ = draw_volume(E, c['ps'], c['ms'], [[], [], []])
    k2 = ks[d]
    for r in ks[d].distinct():
        k2 = k2.insert(ks[d].v[ks[d].r.index(r)], r, t)
    R = E.ok('NurbsVolume::ElevateDegree', V, t, d, None).out[0]
    same_volume(E, 'volume degree elevation', V, ks, c['ps'], R, with_axis(ks, d, k2), [p + (t if a == d else 0) for a, p in enumerate(c['ps'])])


@contract('vreverse', ['NurbsVolume::Reverse'], lambda tier, lits: list(c_dir(tier)), trials=3)
def vreverse(E, c):
    d = c['dir']
    V, ks, _, _ = draw_volume(E, c['ps'], c['ms'], [[], [], []])
    R = E.ok('NurbsVolume::Reverse', V, d, None).out[0]
    same_volume(E, 'volume reversal', V, ks, c['ps'], R, with_axis(ks, d, mirrored(ks[d])), c['ps'], [mirror_of(ks[d]) if a == d else ID for a in range(3)])


@contract('vswap', ['NurbsVolume::Swap'], lambda tier, lits: [dict(ps=list(ps), ms=[list(m) for m in ms], ab=ab) for ps, ms in vshapes(tier) for ab in ([0, 1], [0, 2], [1, 2], [1, 0], [2, 0], [2, 1])], trials=3)
def vswap(E, c):
    a, b = c['ab']
    V, ks, _, _ = draw_volume(E, c['ps'], c['ms'], [[], [], []])
    R = E.ok('NurbsVolume::Swap', V, a, b, None).out[0]
    pm = [0, 1, 2]
    pm[a], pm[b] = b, a
    same_volume(E, 'swap of two volume directions', V, ks, c['ps'], R, [ks[i] for i in pm], [c['ps'][i] for i in pm], perm=pm)


@contract('vsplit', ['NurbsVolume::SplitAt'], lambda tier, lits: [dict(c, loc=list(l)) for c in c_dir(tier) for l in locs(c['ms'][c['dir']], False)], trials=3)
def vsplit(E, c):
    from .cgeo import cut
    d = c['dir']
    V, ks, vals, ranks = draw_volume(E, c['ps'], c['ms'], [[c['loc']] if a == d else [] for a in range(3)])
    x, r, p = vals[d][0], ranks[d][0], c['ps'][d]
    res = E.ok('NurbsVolume::SplitAt', V, beside(x, c.get('ulp')), d, None, None)
    E.check('split is possible inside the domain', bool(res.ret))
    L, R = cut(ks[d], p, r, x)
    same_volume(E, 'first part', V, ks, c['ps'], res.out[0], with_axis(ks, d, L), c['ps'])
    same_volume(E, 'second part', V, ks, c['ps'], res.out[1], with_axis(ks, d, R), c['ps'])


@contract('vextract', ['NurbsVolume::Extract'], lambda tier, lits: [dict(c, loc=list(l)) for c in c_dir(tier) for l in locs(c['ms'][c['dir']])], trials=3)
def vextract(E, c):
    """the iso surface at a fixed parameter of one direction, in the order of the two remaining directions"""
    d = c['dir']
    V, ks, vals, ranks = draw_volume(E, c['ps'], c['ms'], [[c['loc']] if a == d else [] for a in range(3)])
    x, r = vals[d][0], ranks[d][0]
    res = E.ok('NurbsVolume::Extract', V, beside(x, c.get('ulp')), d, None)
    E.check('extraction succeeds', bool(res.ret))
    if not res.out:
        E.fail('the surface is handed back to the caller', 'by value')
    S = res.out[0]
    a, b = [k for k in range(3) if k != d]
    pa, pb, ka, kb = c['ps'][a], c['ps'][b], ks[a], ks[b]
    E.check('surface degrees', S['DegreeU'] == pa and S['DegreeV'] == pb)
    E.eq('surface u knots', S['KnotVectorU'], ka.v)
    E.eq('surface v knots', S['KnotVectorV'], kb.v)
    P = S['ControlPoints']
    n, m = len(ka.v) - pa - 1, len(kb.v) - pb - 1
    if len(P) != n or any(len(q) != m for q in P):
        E.fail('surface control net size', '%d' % len(P))
    sd = at(ks[d], c['ps'][d], c['loc'], r)
    for i in ka.spans(pa):
        u = E.interior('x.u%d' % i, ka.v[i], ka.v[i + 1])
        for j in kb.spans(pb):
            v = E.interior('x.v%d' % j, kb.v[j], kb.v[j + 1])
            y, s = [x] * 3, [sd] * 3
            y[a], y[b], s[a], s[b] = u, v, i, j
            E.eq('surface lies in the volume (cell %d,%d)' % (i, j), spec.surface(ka, pa, kb, pb, P, i, u, j, v), vval(V['ControlPoints'], c['ps'], ks, y, s), 1e-5)


_dirlocs = lambda tier, lits: [dict(c, loc=list(l)) for c in c_dir(tier) for l in locs(c['ms'][c['dir']], False)]
_near = 'a parameter that differs from a knot by one rounding error is treated as the knot'
contract('nearvinsert', ['NurbsVolume::InsertKnot'], beside_cases(c_vins), trials=2, native_only=True, noconf=True, note=_near)(vinsert)
contract('nearvsplit', ['NurbsVolume::SplitAt'], beside_cases(_dirlocs), trials=2, native_only=True, noconf=True, note=_near)(vsplit)
contract('nearvextract', ['NurbsVolume::Extract'], beside_cases(_dirlocs), trials=2, native_only=True, noconf=True, note=_near)(vextract)
