"""C01-C03: knot spans, basis functions and their derivatives."""
from .base import *
import spec


def c_shape_loc(degs, tier):
    out = []
    for p in degs:
        for m in knot_shapes(p, tier):
            for l in locs(m):
                out.append({'p': p, 'm': m, 'loc': list(l)})
    return out


def degs(tier):
    return pick(tier, [1, 2, 3, 4], [1, 2, 3, 4, 5, 6, 7], [5, 6, 7])


@contract('span', ['Polynomials::GetKnotSpanIndex'], lambda tier, lits: [dict(c, u=un) for c in c_shape_loc([0] + degs(tier), tier) for un in (0,)])
def span(E, c):
    p, m, loc = c['p'], c['m'], c['loc']
    kv, (u,), (r,) = E.knotvec('t', m, [loc])
    res = E.ok('Polynomials::GetKnotSpanIndex', p, kv.v, u)
    E.same_int('span index i with t_i <= u < t_i+1 (last non-empty span at the end)', res.ret, at(kv, p, loc, r))


@contract('mult', ['Polynomials::GetKnotMultiplicity'], lambda tier, lits: c_shape_loc(degs(tier), tier))
def mult(E, c):
    kv, (u,), (r,) = E.knotvec('t', c['m'], [c['loc']])
    res = E.ok('Polynomials::GetKnotMultiplicity', kv.v, u)
    E.same_int('multiplicity = number of knots equal to u', res.ret, kv.mult(r) if c['loc'][0] == 'knot' else 0)


@contract('basis', ['Polynomials::BasisFunctions'], lambda tier, lits: c_shape_loc(pick(tier, range(6), range(8), [5, 6, 7]), tier))
def basis(E, c):
    p, loc = c['p'], c['loc']
    kv, (u,), (r,) = E.knotvec('t', c['m'], [loc])
    i = at(kv, p, loc, r)
    res = E.ok('Polynomials::BasisFunctions', i, p, kv.v, u, None)
    Nd = spec.N(kv, p, i, u)
    got = res.out[0]
    tot = 0
    for j in range(p + 1):
        E.eq('N_{i-p+%d,p}(u) equals the Cox-de Boor function' % j, got[j], Nd.get(i - p + j, 0))
        E.le('basis function %d is non-negative' % j, 0, got[j])
        tot = tot + got[j]
    E.eq('the basis functions sum to one', tot, 1)


def c_one(tier, lits):
    out = []
    for p in pick(tier, [1, 2, 3], [1, 2, 3, 4]):
        for m in knot_shapes(p, tier):
            for l in locs(m):
                out.append({'p': p, 'm': m, 'loc': list(l)})
    return out


@contract('onebasis', ['Polynomials::OneBasisFunction'], c_one, summaries='gpz', note='values the code compares with zero are exactly zero or beyond the tolerance')
def onebasis(E, c):
    p, loc = c['p'], c['loc']
    kv, (u,), (r,) = E.knotvec('t', c['m'], [loc])
    sp = at(kv, p, loc, r)
    Nd = spec.N(kv, p, sp, u)
    for i in range(nctrl(c['m'], p)):
        res = E.ok('Polynomials::OneBasisFunction', i, p, kv.v, u)
        E.eq('N_{%d,p}(u) equals the Cox-de Boor function' % i, res.ret, Nd.get(i, 0), 2e-5)


@contract('onebasisder', ['Polynomials::OneBasisFunctionDerivative'], lambda tier, lits: [c for c in c_one(tier, lits) if not (c['loc'][0] == 'knot' and c['loc'][1] == len(c['m']) - 1)],
          summaries='gpz', note='parameters in [t_0, t_m); values the code compares with zero are exactly zero or beyond the tolerance')
def onebasisder(E, c):
    p, loc = c['p'], c['loc']
    kv, (u,), (r,) = E.knotvec('t', c['m'], [loc])
    sp = at(kv, p, loc, r)
    D = [spec.dN(kv, p, sp, u, d) for d in range(p + 1)]
    for i in range(nctrl(c['m'], p)):
        for d in sorted({0, 1, p}):
            res = E.ok('Polynomials::OneBasisFunctionDerivative', i, p, d, kv.v, u)
            E.eq('derivatives of N_{%d,p}' % i, res.ret, [D[k].get(i, 0) for k in range(d + 1)], 1e-3)


@contract('allbasis', ['Polynomials::AllBasisFunctions'], lambda tier, lits: c_shape_loc([0] + degs(tier), tier))
def allbasis(E, c):
    p, loc = c['p'], c['loc']
    kv, (u,), (r,) = E.knotvec('t', c['m'], [loc])
    i = at(kv, p, loc, r)
    got = E.ok('Polynomials::AllBasisFunctions', i, p, kv.v, u).ret
    for d in range(p + 1):
        Nd = spec.N(kv, d, i, u)
        for j in range(d + 1):
            E.eq('N_{i-d+j,%d}' % d, got[j][d], Nd.get(i - d + j, 0))


def c_der(tier):
    out = []
    for c in c_shape_loc(pick(tier, [1, 2, 3, 4], range(0, 8), [5, 6, 7]), tier):
        for d in sorted({0, 1, 2, c['p']}):
            if d <= c['p']:
                out.append(dict(c, d=d))
    return out


@contract('basisders', ['Polynomials::BasisFunctionsDerivatives'], lambda tier, lits: c_der(tier))
def basisders(E, c):
    p, loc, d = c['p'], c['loc'], c['d']
    kv, (u,), (r,) = E.knotvec('t', c['m'], [loc])
    i = at(kv, p, loc, r)
    got = E.ok('Polynomials::BasisFunctionsDerivatives', i, p, d, kv.v, u).ret
    E.check('one row per order', len(got) == d + 1)
    for k in range(d + 1):
        D = spec.dN(kv, p, i, u, k)
        E.eq('row %d has p+1 entries equal to the derivatives' % k, got[k], [D.get(i - p + j, 0) for j in range(p + 1)])
        if k:
            s = 0
            for j in range(p + 1):
                s = s + got[k][j]
            E.eq('derivatives of order %d sum to zero' % k, s, 0, 1e-3)


@contract('basisder1', ['Polynomials::BasisFunctionsFirstOrderDerivative'], lambda tier, lits: c_shape_loc(degs(tier), tier))
def basisder1(E, c):
    p, loc = c['p'], c['loc']
    kv, (u,), (r,) = E.knotvec('t', c['m'], [loc])
    i = at(kv, p, loc, r)
    got = E.ok('Polynomials::BasisFunctionsFirstOrderDerivative', i, p, kv.v, u, None).out[0]
    for k in (0, 1):
        D = spec.dN(kv, p, i, u, k)
        for j in range(p + 1):
            E.eq('order %d, function %d' % (k, j), got[k][j], D.get(i - p + j, 0))
