"""Properties -> contracts; callee-contract families."""
import summaries as SM
from .base import REG
from . import basis, tol, valid, curve, cedit, surf, sedit, vec, cgeo, bez, geo, vol, scon, itp, form, shape, apx, oct, inv, quad, vor, big, again

PROPS = {}


def summaries(kind):
    return {'none': {}, 'base': SM.BASE, 'exact': SM.EXACT, 'gp': SM.GENERAL, 'gpz': SM.GENERIC, 'gps': SM.GENERICSIGN, 'gprem': SM.REMOVAL, 'interp': SM.INTERP, 'local': SM.LOCAL, 'linear': SM.LINEAR, 'sweep': SM.SWEEP}[kind]


def support(kind):
    """contracts that establish the callee contracts of this family"""
    if kind == 'none':
        return []
    out = ['tolerance.compare', 'tolerance.constants', 'valid.kv']
    if kind == 'gprem':
        out += ['modtol']
    if kind in ('gpz', 'gps', 'interp', 'local', 'linear'):
        out += ['normalize', 'vecpred', 'angleto']
    if kind in ('interp', 'local', 'linear'):
        out += ['chordpar', 'meshpar', 'solvelin', 'matinv', 'solveband']
    if kind == 'local':
        out += ['xyz', 'bessel', 'tangent5']
    return out


TRUSTED = [
    'lnv verification-condition generator and symbolic executor (lnv/interp.py, lnv/solver.py, lnv/terms.py); sampled against the compiled code on every run (conformance_calls)',
    'clang 18 front end (AST of /repo sources, re-extracted on every run)',
    'z3 4.8 (nonlinear real arithmetic) for side conditions',
    'models of the std:: containers and algorithms used by the library (lnv/stdlib.py)',
    'polynomial identities discharged by evaluation at random points of a 61-bit prime field (error probability < 2^-40 per obligation)',
    'equalities with square roots that neither normal forms nor the prime field settle are decided by evaluation with 60 digits at generic points of the path (back end num-id)',
    'concrete mismatches on inputs where moving the inputs by a few ulps moves the result by a tenth of the mismatch are set aside as rounding noise',
]
ASSUME = [
    'double arithmetic is treated as exact real arithmetic in the obligations; concrete runs use IEEE doubles with a 1e-6 relative margin',
    'int arithmetic is mathematical (sizes are small)',
    'distinct knots and parameters are separated by more than 4e-6*(1+|max|), i.e. beyond the library tolerance',
]
EXPLAIN = ('Contracts on the real functions: every feasible path of the extracted code is executed symbolically over all real inputs admitted by the precondition and every postcondition is discharged; '
           'contracts marked "bounded in shape" enumerate degrees / multiplicity patterns / grid sizes instead of quantifying over them, and are not counted as unbounded proofs.')


def prop(pid, contracts, support=(), level='other', **kw):
    for n in list(contracts) + list(support):
        assert n in REG, n
    PROPS[pid] = dict(contracts=list(contracts), support=list(support), level=level, **kw)


prop('C01', ['span', 'mult', 'bagain'])
prop('C02', ['basis', 'onebasis', 'allbasis', 'bagain'])
prop('C03', ['basisders', 'basisder1', 'onebasisder', 'bagain'])
prop('C04', ['bspt', 'nupt', 'cornercut', 'again'])
prop('C05', ['bsders', 'bsdercps', 'nuders', 'ccurv', 'cnormal', 'ctorsion', 'canderiv', 'again'])
prop('C09', ['insert', 'insertover', 'refine', 'nearinsert'])
prop('C10', ['elevate'])
prop('C11', ['decompose'])
prop('C12', ['reduce', 'reducegen', 'reducetol', 'removeform', 'removeexc', 'remove'])
prop('C28', ['tolerance.compare', 'tolerance.special', 'tolerance.constants', 'binomial', 'factorial', 'angles', 'matmul', 'matmake', 'matinv', 'cubicroot'])
prop('C06', ['spt', 'sagain'])
prop('C07', ['bssders', 'bssdersall', 'nusders', 'snormal', 'scurv', 'scurvp', 'sagain'])
prop('C15', ['sinsert', 'nearsinsert', 'srefine', 'selevate', 'sreduce', 'sdecompose'])
prop('C16', ['sreverse', 'sswap', 'sreparam', 'siso'])
prop('C19', ['access', 'normalize', 'xyz', 'uvw', 'xyzw', 'cputils', 'vecpred', 'angleto', 'orthogonal'])
prop('C20', ['mataffine', 'matgeneral', 'matrigid', 'matpred', 'matinv4'])
prop('C13', ['split', 'extract', 'merge', 'nearsplit'])
prop('C14', ['creverse', 'creparam', 'cmoebius', 'ctransform'])
prop('C18', ['bernstein', 'horner', 'powermat', 'bezcurve', 'bezsurf', 'bezarc'])
prop('C22', ['kvcontinuity', 'kvinsertends', 'kvmerge2', 'kvmergen', 'kvmergeround', 'kvmid', 'kvuniform'])
prop('C21', ['rays', 'lineplane', 'project'])
prop('C23', ['line', 'arc', 'onecon', 'splitarc', 'conic', 'midquad', 'hermite'])
prop('C08', ['vpt', 'vders', 'viso', 'vagain'])
prop('C17', ['vinsert', 'vrefine', 'velevate', 'vreverse', 'vswap', 'vsplit', 'vextract', 'nearvinsert', 'nearvsplit', 'nearvextract'])
prop('C24', ['sbilinear', 'scylinder', 'sruled', 'srevolved', 'stranssweep', 'snuscale', 'scoons', 'sloft', 'sloftchord', 'gordon', 'pnormal', 'ssweep'])
prop('C26', ['valid.kv', 'valid.counts', 'valid.curve', 'valid.surface', 'valid.volume', 'valid.reject'])
prop('C25', ['chordlen', 'chordpar', 'avgknots', 'fitknots', 'meshpar', 'bessel', 'tangent5', 'tangentline', 'solvelin', 'ginterp', 'ginterptan', 'clocal', 'sginterp', 'bicubic', 'quadweight'])
prop('C27', ['eqtess', 'eqtesssym', 'seqtess', 'tess', 'tri'])
prop('C30', ['clamp', 'isclamp', 'unclamp', 'closed', 'closedsym', 'sclosed', 'periodic', 'linear', 'isarc', 'extend'])
prop('C29', ['reposition', 'reposout', 'weightmod', 'neighbour', 'warp', 'flatten', 'bend', 'constrain', 'constrainsym', 'offset'])
prop('C33', ['lsq', 'wlsq', 'rkbound', 'rkjump', 'sapprox', 'fitconic', 'fitcubic', 'gaeb', 'solveband'])
prop('C32', ['octinside', 'octcontains', 'octoverlaps', 'octsmall', 'octknnset', 'octradset', 'octtree', 'octsearch', 'octsearchsym', 'octknnsym', 'sobb', 'sbox', 'boxmeet'])
prop('C34', ['invcurve', 'projcurve', 'invsurf', 'projsurf', 'invvol', 'uvtangent'])
prop('C35', ['simpson', 'simpson2', 'gausstable', 'clenshaw', 'curvelen', 'bylength', 'bylengthjump', 'surfarea'])
prop('C36', ['vordist', 'vorbisect', 'vormeet', 'vorfound', 'vorright', 'vorclip', 'delaunay', 'delaunayagain', 'delaunaygrid', 'triangulate'])
