"""Further cases for concrete runs only: larger degrees, sizes and knot patterns than the symbolic runs use."""
from .base import REG, knot_shapes, locs
from .surf import uvshapes


def big(name, cases):
    c = REG[name]
    c.big = list(c.big or []) + list(cases)


# knot vector utilities
big('kvmerge2', [{'pat': x} for x in ([(8, 8), (7, 0), (0, 7), (3, 6), (8, 8)], [(4, 4)] + [(1, 0), (0, 1)] * 6 + [(4, 4)], [(5, 5)] + [(1, 1)] * 8 + [(0, 2), (5, 5)], [(2, 6), (6, 2)], [(3, 3)] + [(0, 1)] * 9 + [(3, 3)], [(3, 3)] + [(2, 0)] * 9 + [(3, 3)])])
big('kvmergen', [{'pat': x} for x in ([(8, 8, 8), (7, 0, 1), (0, 7, 2), (3, 6, 0), (8, 8, 8)], [(4,) * 6] + [tuple(int(i == k) for i in range(6)) for k in range(6)] + [(4,) * 6], [(3,) * 7] + [tuple((i * k) % 4 for i in range(7)) for k in range(1, 6)] + [(3,) * 7])])
big('kvinsertends', [{'p': p, 'm': m, 'a': list(a), 'b': list(b)} for p in (4, 5, 7) for m in ([p + 1, 1, 2, p + 1], [p + 1, p, 1, 1, p + 1]) for i, a in enumerate(locs(m)) for b in locs(m)[i:] if a != b])
big('kvmid', [{'n': n, 'm': m} for n in (9, 17, 40) for m in ([1, 1], [4, 1, 1, 4], [4, 3, 1, 2, 1, 4], [2] + [1] * 8 + [2])])
big('kvuniform', [{'m': m, 'g': g} for m in ([4] + [1] * 7 + [4], [6] + [2] * 5 + [6], [6, 2, 2, 3, 6], [5] + [1] * 6 + [2, 5]) for g in [None] + list(range(len(m) - 1))])
# matrices, polynomials, control point utilities
big('matmul', [{'m': m, 'n': n, 'p': p} for m, n, p in ((4, 5, 6), (6, 1, 5), (1, 7, 1), (5, 5, 5), (2, 8, 3))])
big('cputils', [{'m': m, 'n': n, 'p': p} for m, n, p in ((4, 5, 3), (6, 2, 4), (2, 7, 5), (5, 5, 2))])
big('horner', [{'n': n, 'm': m} for n in (5, 8, 11) for m in (0, 4, 7, 10)])
big('bezsurf', [{'n': n, 'm': m, 'at': a} for n in (1, 4, 7, 9) for m in (3, 6, 8) for a in (0, 1, 'in')])
# surface constructors
big('sruled', [{'p': p, 'q': q, 'pat': x} for p, q, x in ((1, 5, [(2, 6), (1, 2), (0, 1), (2, 6)]), (5, 2, [(6, 3), (2, 1), (6, 3)]), (7, 1, [(8, 2), (1, 0), (0, 1), (8, 2)]), (3, 3, [(4, 4)] + [(1, 0), (0, 1)] * 4 + [(4, 4)]), (2, 4, [(3, 5), (2, 0), (0, 4), (1, 3), (3, 5)]),
                                                            (4, 4, [(5, 5), (4, 0), (0, 4), (5, 5)]), (6, 3, [(7, 4), (3, 0), (0, 2), (7, 4)]), (3, 3, [(4, 4)] + [(0, 1)] * 7 + [(4, 4)]))])
big('srevolved', [{'n': n, 'k': k, 'p': p, 'on': on, 'm': m} for n in (1, 2, 3, 4) for k in ('free', 'top') for p, m, on in ((1, [2] + [1] * 6 + [2], (3,)), (3, [4, 1, 2, 1, 4], ()), (2, [3] + [1] * 5 + [3], (0, 7)), (5, [6, 2, 6], ()), (4, [5, 1, 1, 5], (2,)))])
big('stranssweep', [{'pu': a, 'mu': b, 'pv': d, 'mv': e} for a, b, d, e in uvshapes('big')])
big('snuscale', [{'n': n, 'm': m, 'ref': r} for n, m in ((5, 6), (7, 3), (2, 9), (8, 8)) for r in (0, 1)])
big('scoons', [{'c': [list(x) for x in y]} for y in ([(5, ['1/3'], [6, 2, 6]), (2, ['1/4', '1/2', '3/4'], [3, 1, 1, 1, 3]), (3, ['1/5', '2/3'], [4, 3, 1, 4]), (6, [], [7, 7])], [(1, ['1/7', '2/7', '3/7', '5/7'], [2, 1, 1, 1, 1, 2]), (4, ['1/2'], [5, 3, 5]), (4, ['1/3'], [5, 1, 5]), (2, ['1/2', '5/8'], [3, 2, 2, 3])],
                                                     [(3, ['1/4', '1/2', '3/4'], [4, 1, 1, 1, 4])] * 4, [(7, [], [8, 8]), (1, ['1/2'], [2, 1, 2]), (1, [], [2, 2]), (5, ['1/3', '3/4'], [6, 2, 1, 6])])])
big('sloft', [{'q': q, 'ps': ps, 'pat': pat} for q, ps, pat in ((3, [3] * 6, [[4] * 6, [1, 0, 1, 0, 1, 0], [0, 1, 0, 1, 0, 1], [4] * 6]), (2, [4, 1, 3, 2, 4], [[5, 2, 4, 3, 5], [2, 1, 0, 1, 0], [5, 2, 4, 3, 5]]), (4, [2] * 7, [[3] * 7, [1] * 7, [2, 0, 0, 1, 0, 0, 0], [3] * 7]),
                                                           (1, [5, 2, 5], [[6, 3, 6], [3, 1, 0], [6, 3, 6]]), (5, [1] * 8, [[2] * 8, [1, 0] * 4, [0, 1] * 4, [0, 0, 0, 1, 0, 0, 0, 0], [2] * 8]))])
big('sloftchord', [{'ps': ps, 'pat': pat, 'deg': d} for ps, pat in (([1] * 6, [[2] * 6, [1, 0] * 3, [0, 1] * 3, [2] * 6]), ([3] * 6, [[4] * 6, [1, 0, 1, 0, 1, 0], [0, 1, 0, 1, 0, 1], [4] * 6]), ([2, 1, 2, 1, 2, 1], [[3, 2, 3, 2, 3, 2], [1, 0, 0, 1, 0, 0], [3, 2, 3, 2, 3, 2]])) for d in (False, True)])
big('gordon', [{'p': p, 'n': n, 'm': m} for p, n, m in ((1, 5, 6), (2, 6, 5), (3, 6, 6), (3, 5, 8), (4, 6, 7), (2, 4, 8))])
big('pnormal', [{'k': 'open', 'p': p, 'm': m} for p in (3, 4, 5) for m in knot_shapes(p, 'big')] + [{'k': 'closed', 'n': n} for n in (10, 13)])
big('ssweep', [{'p': p, 'mp': mp, 't': t, 'mt': mt, 'k': k} for p, mp in ((3, [4, 1, 2, 4]), (4, [5, 5])) for t, mt in ((3, [4, 1, 1, 4]), (4, [5, 1, 5]), (2, [3, 1, 1, 1, 3])) for k in (4, 9, 14)])
# curve constructors and interpolation
big('chordlen', [{'pat': p} for p in (list(range(9)), [0, 1, 2, 3, 3, 4, 5, 5, 5, 6], [0, 1] * 6)])
big('chordpar', [{'pat': p, 'cent': b} for p in (list(range(9)), [0, 1, 2, 3, 3, 4, 5, 5, 5, 6], [0, 1] * 6) for b in (False, True)])
big('fitknots', [{'p': p, 'n': n, 'm': m} for p in (2, 3, 5, 7) for n in (p + 4, p + 7, p + 12) for m in (n, n + 2, 2 * n, 3 * n + 2)])
big('meshpar', [{'g': g} for g in ([[5 * i + j for j in range(5)] for i in range(6)], [[0] * 6] + [[1 + 6 * i + j for j in range(6)] for i in range(4)], [[0] + [1 + 4 * i + j for j in range(4)] for i in range(7)])])
big('bessel', [{'pat': p} for p in (list(range(8)), [0, 1, 2, 3, 3, 4, 5, 6], list(range(12)), [0, 1, 2, 3, 4, 5, 5])])
big('tangent5', [{'n': n} for n in (8, 10, 13)])
big('tangentline', [{'n': n} for n in (10, 15)])
big('solvelin', [{'n': n, 'k': k} for n in (8, 13, 20) for k in (1, 2, 5)])
big('clocal', [{'n': n} for n in (8, 10, 14)])
big('sginterp', [{'p': p, 'q': q, 'n': n, 'm': m} for p, q, n, m in ((3, 3, 6, 6), (4, 2, 6, 4), (1, 4, 7, 6), (2, 3, 8, 5), (5, 1, 6, 5), (3, 1, 4, 9))])
big('bicubic', [{'n': n, 'm': m} for n, m in ((6, 6), (7, 4), (4, 8), (5, 5), (2, 7))])
# editing and form
big('reposout', [{'p': p, 'm': [p + 1, 1, 1, 1, p + 1], 's': s} for p in (2, 4, 5) for s in range(4)])
big('warp', [{'p': p, 'm': m, 's': s, 'g': g} for p in (2, 4, 5) for m in ([p + 1, 1, 1, p + 1], [p + 1, 2, 1, 1, p + 1]) for s in range(len(m) - 1) for g in (1, -1)])
big('neighbour', [{'p': p, 'm': m, 's': s, 'j': j} for p in (4, 5) for m in ([p + 1, p + 1], [p + 1, 1, 2, p + 1]) for s in range(len(m) - 1) for j in range(p)])
big('flatten', [{'p': p, 'm': [p + 1] + [1] * (p + k) + [p + 1], 'a': a, 'b': b} for p in (2, 3, 4, 5) for k, a, b in ((3, 0, -1), (6, 1, -2), (9, 2, -2))])
big('unclamp', [{'p': p, 'm': m} for p in (2, 5, 6) for m in ([p + 1, p + 1], [p + 1, 2, 1, 1, p + 1], [p + 1] + [1] * (p + 3) + [p + 1])])
big('closed', [{'k': 'half', 'p': p, 'm': [1] * (3 * p + 6)} for p in (4, 5)])
big('periodic', [{'p': p, 'e': e, 'k': k} for p in (2, 4, 5) for e in (2, 5) for k in ('wrapped', 'generic', 'stretched', 'clamped', 'cornered')])
big('linear', [{'n': n, 'k': k} for n in (7, 9, 12) for k in ('line', 'repeat', 'point', 'bent', 'lastbent')])
big('extend', [{'k': k, 'p': p, 'm': m, 's': s} for k in ('tangent', 'arc', 'natural') for p in (4, 5) for m in ([p + 1, p + 1], [p + 1, 1, 2, p + 1]) for s in (0, 1)])
big('eqtess', [{'p': p, 'm': m} for p in (4, 5) for m in knot_shapes(p, 'big')])
big('tess', [{'p': p, 'm': m} for p in (2, 3, 4) for m in knot_shapes(p, 'big')[:2]])
big('tri', [{'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'r': r} for pu, mu, pv, mv in uvshapes('big')[:4] for r in ((5, 7), (9, 4))])
# approximation
big('wlsq', [{'p': p, 'm': m, 'n': n, 'k': k} for p, m, n in ((1, 9, 6), (2, 11, 7), (3, 12, 8), (4, 12, 8), (5, 14, 9)) for k in ('free', 'ends', 'inner', 'tan', 'tancon', 'zero')])
big('rkbound', [{'p': p, 'm': m, 's': s, 'k': k} for k in (1, 2, 3) for p in (3, 4, 5) for m in ([p + 1, 1, 2, p + 1], [p + 1, 2, 1, 1, p + 1]) for s in range(len(m) - 1)])
big('solveband', [{'n': n, 'h': h} for n in (8, 14) for h in (1, 3, 5)])
big('sapprox', [{'k': k, 'r': r, 'c': cc, 'pu': pu, 'pv': pv, 'nr': nr, 'nc': nc} for k in ('translational', 'general') for r, cc, pu, pv, nr, nc in ((10, 9, 3, 3, 6, 6), (9, 12, 2, 4, 5, 8))])
big('gaeb', [{'p': p, 'n': n, 'e': e, 'k': 'any'} for p in (2, 3, 4) for n in (10, 14) for e in (1e-4, 1e-1)])
# quadrature, inversion
big('curvelen', [{'p': p, 'm': m, 't': t} for p in (3, 4, 5) for m in ([p + 1, 1, 1, 1, p + 1], [p + 1, 1, 2, 1, p + 1]) for t in ('Simpson', 'GaussLegendre', 'Chebyshev')])
big('invcurve', [{'p': p, 'm': m, 'l': list(l), 'k': 'open'} for p in (3, 5) for m in ([p + 1, 1, 1, 1, p + 1], [p + 1, 2, 1, p + 1]) for l in locs(m)])
big('projcurve', [{'p': p, 'm': m, 'k': 'open'} for p in (3, 5) for m in ([p + 1, 1, 1, 1, p + 1], [p + 1, 2, 1, p + 1])])
# geometry of surfaces
_G = [{'pu': pu, 'mu': mu, 'pv': pv, 'mv': mv, 'lu': list(a), 'lv': list(b)} for pu, mu, pv, mv in ((3, [4, 1, 4], 3, [4, 4]), (4, [5, 5], 2, [3, 1, 3]), (2, [3, 1, 1, 3], 5, [6, 6])) for a in locs(mu) for b in locs(mv) if 'span' in (a[0], b[0])]
big('snormal', _G)
big('scurvp', [dict(c, kind=k) for c in _G for k in (0, 1, 4, 5)])
big('uvtangent', _G)
big('hermite', [{'n': n, 'k': k} for n in (7, 9, 12) for k in ('open', 'closed', 'cyclic')])
big('eqtess', [{'p': p, 'm': [p + 1] + [1] * 9 + [p + 1]} for p in (1, 2, 3)])
big('bylength', [{'p': p, 'm': [p + 1] + [1] * k + [p + 1], 't': t} for p in (2, 3) for k in (5, 8) for t in ('Simpson', 'GaussLegendre')])
