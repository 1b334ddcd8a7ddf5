#!/usr/bin/env python3-vt
"""writes /verif/DESIGN.md: fixed text + per-property sections taken from props.py and the contract registry"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V + '/lnv')
sys.path.insert(0, HERE)
import props
import contracts.registry as R
from contracts.base import REG

FAM = {'none': 'no callee contracts: every body is executed',
       'base': 'tolerance comparisons by their contract',
       'exact': 'tolerance comparisons by their contract, compared values equal or separated',
       'gp': 'tolerance comparisons by their contract; values compared for equality are equal or separated (general position)',
       'gpz': 'as gp, plus vector normalisation/zero test by contract; a quantity that is not identically zero is taken as non-zero (generic position)',
       'gps': 'as gpz, and a positive quantity exceeds the tolerance',
       'gprem': 'as gp, removal tolerance by contract (some value in (0, 1e-4])',
       'interp': 'as gpz, chord parametrisation and linear solver by contract',
       'local': 'as interp, tangent estimation by contract',
       'linear': 'as gps, linear solver / inverse / banded solver by contract',
       'sweep': 'pool allocator of the Voronoi sweep by contract (a fresh object each time; the vertex and link tables are not followed)'}

HOW = {
 'C01': 'Spec: the index is the unique i with t_i <= u < t_{i+1} (last non-empty span at the end). The knots are symbolic reals in a fixed order pattern; the binary search runs on symbolic comparisons.',
 'C02': 'Oracle: the Cox-de Boor recursion (spec.N) over the same symbolic knots; equality of rational functions.',
 'C03': 'Oracle: the derivative recursion applied to the spec recursion (spec.dN), independent of the algorithm A2.3 in the code.',
 'C04': 'Oracle: sum N_i P_i w_i / sum N_i w_i with spec.N; three evaluators.',
 'C05': 'Oracle: formal differentiation of the spec curve; curvature, normal and torsion by their definitions from those derivatives.',
 'C06': 'Oracle: tensor product of the spec bases.',
 'C07': 'Oracle: formal partial derivatives of the spec surface; fundamental forms for curvature (principal curvatures involve nested roots and are checked concretely).',
 'C08': 'Oracle: triple tensor product and its formal partial derivatives.',
 'C09': 'The result curve and the original are both expanded with spec.N on every span of the refined knots at a formal parameter: equality of polynomials in the parameter, for all knots, points and weights.',
 'C10': 'As C09 with the elevated degree; multiplicities of the result stated exactly.',
 'C11': 'Every Bezier segment against the spec curve on its span, formally.',
 'C12': 'Reduction of curves that were elevated by the spec; knot removal results are checked for form; removal of inserted knots is a known finding.',
 'C13': 'Pieces / the merged curve against the original(s) on every span, formally.',
 'C14': 'Composition with the parameter map (affine, mirror, Moebius) or point map, formally.',
 'C15': 'As C09-C12 on surfaces, per direction.', 'C16': 'Composition with the parameter maps; iso curves against the surface restricted to the line.',
 'C17': 'As C09-C16 on volumes, per direction.', 'C18': 'Bernstein form, Horner form and de Casteljau against the binomial sum.',
 'C19': 'Vector laws as polynomial / root identities over all reals.', 'C20': 'Matrix laws over all reals; rotations through the identity sin^2 + cos^2 = 1.',
 'C21': 'Configurations are constructed from their answer (lines through a chosen point, ...), so that the answer is known symbolically.',
 'C22': 'Set/multiset laws of the merged or inserted knots over symbolic knots.',
 'C23': 'Implicit equations (circle, ellipse, conic through the data) of the returned curve at a formal parameter; tangents at the ends.',
 'C24': 'The returned surface against the spec combination of its inputs at formal parameters; lofts and networks through the solver contract.',
 'C25': 'The returned curve/surface evaluated by spec.N at the parameters equals the data, using only A x = b from the solver contract.',
 'C26': 'Every documented precondition: symbolic argument outside (and inside) its range, exception class checked on every path.',
 'C27': 'Tessellation parameters and points against the spec; chord error and coverage concretely; triangulation topology on all edges.',
 'C28': 'Tolerance comparisons against their defining inequality over all reals incl. special values; integer combinatorics exhaustively in range.',
 'C29': 'The curve point after modification minus the point before equals the requested displacement as an identity of rational functions.',
 'C30': 'Clamped/unclamped curve against the original on every span; predicates on curves built to satisfy or violate them.',
 'C32': 'Cube predicates against the ball/cube geometry with z3; searches against brute force (symbolically for two points, concretely for clouds).',
 'C34': 'The inversion routines sample 99 points per span and iterate Newton steps: their contracts are checked on concrete inputs (bounded stand-in) with the answer known by construction; GetUVTangent is proved from the normal equations.',
 'C36': 'Bisector, meeting point, side test and clipping: contracts on the private steps of the sweep for all sites, with the pool allocator as an assumed contract (a fresh object each time); the sweep as a whole concretely against the brute force definition (bounded stand-in).',
 'C35': 'Simpson rules: exactness identities over all polynomials and bounds (function objects through virtual dispatch); tables by their moments; lengths and areas concretely against an independent composite rule on the spec derivatives.',
 'C33': 'Normal equations (zero gradient of the squared error) from the solver contract; fitting against the conic/cubic the points come from.',
}

out = []
w = out.append
w(open(HERE + '/design_head.md').read().rstrip() + '\n')
w('## Properties and how each is decided\n')
for q in sorted(props.P, key=lambda q: q['id']):
    pid = q['id']
    w('### %s %s\n' % (pid, q['title']))
    w(q['statement'] if 'statement' in q else '')
    if pid not in R.PROPS:
        w('\nNot claimed: ' + ' '.join(x['reason'] for x in props.NA if x['property'] == pid) + '\n')
        continue
    w('\n*Decision.* ' + HOW.get(pid, '') + '\n')
    w('| contract | functions under contract | reach | callee contracts |')
    w('|---|---|---|---|')
    for n in R.PROPS[pid]['contracts']:
        c = REG[n]
        k = len(c.cases('quick', ()))
        kt = len(c.cases('thorough', ()))
        reach = 'concrete runs, %d shapes (bounded stand-in)' % k if c.native_only else ('all real inputs, no shape parameter' + (' (%d cases)' % k if k > 1 else '') if c.unbounded else 'all real inputs for each of %d shapes%s' % (k, ' (%d thorough)' % kt if kt != k else ''))
        w('| %s | %s | %s | %s |' % (n, ', '.join('`%s`' % f.split('|')[0] for f in c.fns), reach, '-' if c.native_only else c.summaries))
    w('')
w('Callee-contract families (last column): ' + '; '.join('**%s**: %s' % kv for kv in FAM.items()) + '.\n')
w(open(HERE + '/design_tail.md').read().rstrip() + '\n')
kf = json.load(open(V + '/known_findings.json'))
w('## Genuine defects recorded, not repaired (known_findings.json)\n')
for f in kf['findings']:
    w('- %s: %s' % (f['property'], f['what']))
w('\n## Genuine defects repaired in /repo (one `fix:` commit each)\n')
for f in kf['fixed']:
    w('- ' + f[7:])
w('\n## Planted bugs and what catches them\n')
w('| id | property | breaks | needs | caught by |')
w('|---|---|---|---|---|')
caught = json.load(open(HERE + '/caught.json')) if os.path.exists(HERE + '/caught.json') else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/' + d + '/meta.json'))
    w('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], caught.get(d, '')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
