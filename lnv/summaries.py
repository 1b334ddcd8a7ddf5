"""Callee contracts used at call sites (their own bodies are verified against the same contracts by contracts named
'tolerance.*', which every property's check includes)."""
import math
from fractions import Fraction
from terms import *
from values import *


def _fin(x):
    return not isinstance(x, float) or math.isfinite(x)


def _eps(a, b, tol):
    return lift(tol) * (ONE + max_(abs_(lift(a)), abs_(lift(b))))


def _cmp(kind, gp=False):
    """gp: general position - values compared for equality are either exactly equal or separated beyond the tolerance"""
    def f(ip, fn, args, this):
        if ip.mode != 'sym':
            return NotImplemented
        a, b, tol = args
        if isinstance(a, Uninit) or isinstance(b, Uninit):
            ip.ub('read of an uninitialised value')
        if not (_fin(a) and _fin(b)):
            if any(isinstance(x, float) and math.isnan(x) for x in (a, b)):
                return False
            return NotImplemented
        c = ip.ctx
        a, b = c.alias(lift(a)), c.alias(lift(b))
        small = isinstance(tol, Fraction) and tol <= Fraction(1, 10 ** 6)
        s = c.chain_cmp(a, b) if small else (0 if a is b else None)
        if isc(a) and isc(b) and isinstance(tol, Fraction):
            d = a.a - b.a
            e = tol * (1 + max(abs(a.a), abs(b.a)))
            return {'eq': abs(d) <= e, 'gt': d > e, 'ge': d >= -e, 'lt': -d > e, 'le': d <= e}[kind]
        if s is not None:
            return {'eq': s == 0, 'gt': s > 0, 'ge': s >= 0, 'lt': s < 0, 'le': s <= 0}[kind]
        e = _eps(a, b, tol)
        d = a - b
        if gp and kind == 'eq' and small:
            sg = ip.sign(d)
            k = const(Fraction(2, 10 ** 6))
            key = ('gp', d.id)
            m = c.__dict__.setdefault('gpmemo', {})
            if key in m:
                return m[key]
            if sg == '0':
                r = True
            elif sg == '+' or sg == '-':
                r = False
            else:
                r = None
                if gp == 'generic':
                    from solver import pit_zero
                    r = pit_zero(d, c.rng, c.positive)
                if r is None:
                    r = c.decide(rel('eq', d, ZERO))
            m[key] = r
            return r
        if kind == 'eq':
            if isc(b) and b.a == 0 and isinstance(tol, Fraction) and tol < 1:
                # |a| <= tol(1+|a|)  <=>  |a| <= tol/(1-tol)
                k = const(tol / (1 - tol))
                sg = ip.sign(a)
                if sg in ('+', '0+'):
                    return c.decide(rel('le', a, k))
                if sg in ('-', '0-'):
                    return c.decide(rel('le', -a, k))
                return c.decide(band(rel('le', a, k), rel('le', -k, a)))
            return c.decide(band(lb(rel('le', d, e)), lb(rel('le', -e, d))))
        if kind == 'gt':
            return c.decide(rel('lt', e, d))
        if kind == 'ge':
            return c.decide(rel('le', -e, d))
        if kind == 'lt':
            return c.decide(rel('lt', e, -d))
        return c.decide(rel('le', d, e))
    return f


def _exact(kind):
    """compared values are exactly equal or separated beyond the tolerance: the comparison is the exact one"""
    base = _cmp(kind)

    def f(ip, fn, args, this):
        if ip.mode != 'sym':
            return NotImplemented
        a, b, tol = args
        for x, y, sg in ((a, b, 1), (b, a, -1)):
            if isinstance(x, float) and math.isinf(x) and not isinstance(y, (float, Uninit)):
                g = sg * (1 if x > 0 else -1)       # sign of a - b
                return {'eq': False, 'gt': g > 0, 'ge': g > 0, 'lt': g < 0, 'le': g < 0}[kind]
        if isinstance(a, (float, Uninit)) or isinstance(b, (float, Uninit)) or not (isinstance(tol, Fraction) and tol <= Fraction(1, 10 ** 6)):
            return base(ip, fn, args, this)
        a, b = lift(a), lift(b)
        if isc(a) and isc(b):
            return base(ip, fn, args, this)
        if kind == 'eq':
            return ip.ctx.decide(rel('eq', a - b, ZERO))

        def nn(t):              # non-negative whatever the path
            return t.op == 'sqrt' or (t.op == 'var' and t.a in ip.ctx.positive)
        if (a.op == 'sqrt' or b.op == 'sqrt') and nn(a) and nn(b):
            a, b = (t.a[0] if t.op == 'sqrt' else t * t for t in (a, b))
        if kind == 'gt':
            return ip.lt(b, a)
        if kind == 'lt':
            return ip.lt(a, b)
        if kind == 'ge':
            return not ip.lt(a, b)
        return not ip.lt(b, a)
    return f


TOLERANCE = {
    'MathUtils::IsAlmostEqualTo': _cmp('eq'),
    'MathUtils::IsGreaterThan': _cmp('gt'),
    'MathUtils::IsGreaterThanOrEqual': _cmp('ge'),
    'MathUtils::IsLessThan': _cmp('lt'),
    'MathUtils::IsLessThanOrEqual': _cmp('le'),
}


def valid_kv(ip, fn, args, this):
    """ValidationUtils::IsValidKnotVector  <=>  non-decreasing"""
    if ip.mode != 'sym':
        return NotImplemented
    d = args[0].d
    key = tuple(x.id if isinstance(x, T) else x for x in d) if not hasattr(d, 'sym_get') else None
    if key is None:
        return NotImplemented
    m = ip.ctx.__dict__.setdefault('kvmemo', {})
    if key in m:
        return m[key]
    r = all(not ip.lt(d[i + 1], d[i]) for i in range(len(d) - 1))
    m[key] = r
    return r


GP = {
    'MathUtils::IsAlmostEqualTo': _cmp('eq', True),
}

BASE = dict(TOLERANCE)
BASE['ValidationUtils::IsValidKnotVector'] = valid_kv

EXACT = dict(BASE)
EXACT.update({'MathUtils::' + n: _exact(k) for n, k in (('IsAlmostEqualTo', 'eq'), ('IsGreaterThan', 'gt'), ('IsGreaterThanOrEqual', 'ge'), ('IsLessThan', 'lt'), ('IsLessThanOrEqual', 'le'))})

GENERAL = dict(BASE)
GENERAL.update(GP)
GENERIC = dict(BASE)
GENERIC['MathUtils::IsAlmostEqualTo'] = _cmp('eq', 'generic')


def modify_tolerance(ip, fn, args, this):
    """ValidationUtils::ComputeCurveModifyTolerance: some tolerance in (0, 1e-4]  (contract modtol)"""
    if ip.mode != 'sym':
        return NotImplemented
    c = ip.ctx
    k = c.__dict__.setdefault('ntol', 0)
    c.ntol = k + 1
    v = var('_tol%d' % k)
    c.positive.add('_tol%d' % k)
    c.assume(B('lt', ZERO, v))
    c.assume(B('le', v, const(Fraction(1, 10000))))
    return v


REMOVAL = dict(GENERAL)
REMOVAL['ValidationUtils::ComputeCurveModifyTolerance'] = modify_tolerance


def normalize(ip, fn, args, this):
    """XYZ::Normalize, for a vector that is not identically zero: v / |v|   (contract 'normalize'; generic position)"""
    if ip.mode != 'sym':
        return NotImplemented
    from solver import pit_zero
    v = [lift(x) for x in this.f['m_xyz'].d] if 'm_xyz' in this.f else None
    if v is None or any(isinstance(x, Uninit) for x in v):
        return NotImplemented
    d2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    r = this.copy() if hasattr(this, 'copy') else None
    if r is None or isc(d2):
        return NotImplemented
    z = pit_zero(d2, ip.ctx.rng, ip.ctx.positive)
    if z is None:
        return NotImplemented
    if not z:
        L = sqrt_(d2)
        for i in range(3):
            r.f['m_xyz'].d[i] = v[i] / L
    return r


GENERIC['XYZ::Normalize'] = normalize


def iszero(ip, fn, args, this):
    """XYZ::IsZero: generic position - exactly zero or longer than the tolerance (contract 'vecpred')"""
    if ip.mode != 'sym':
        return NotImplemented
    from solver import pit_zero
    v = [lift(x) for x in this.f['m_xyz'].d] if 'm_xyz' in this.f else None
    if v is None or any(isinstance(x, Uninit) for x in v) or not (args and isinstance(args[0], Fraction) and args[0] <= Fraction(1, 10 ** 6)):
        return NotImplemented
    d2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    if isc(d2):
        return NotImplemented
    z = pit_zero(d2, ip.ctx.rng, ip.ctx.positive)
    return NotImplemented if z is None else z


GENERIC['XYZ::IsZero'] = iszero


def angle_to(ip, fn, args, this):
    """XYZ::AngleTo: some angle in [0, pi], the same for the same vectors (contract 'angleto')"""
    if ip.mode != 'sym':
        return NotImplemented
    try:
        v = [lift(x) for x in this.f['m_xyz'].d] + [lift(x) for x in args[0].f['m_xyz'].d]
    except (KeyError, AttributeError):
        return NotImplemented
    c = ip.ctx
    m = c.__dict__.setdefault('angmemo', {})
    k = tuple(x.id for x in v)
    if k not in m:
        t = var('_ang%d' % len(m))
        c.assume(B('le', ZERO, t))
        c.assume(B('le', t, PI))
        m[k] = t
    return m[k]


GENERIC['XYZ::AngleTo'] = angle_to


# ---------------------------------------------------------------- linear systems (Eigen) and parametrisations
_nlin = [0]


def solve_linear(ip, fn, args, this):
    """MathUtils::SolveLinearSystem (Eigen, assumed; sampled by contract 'solvelin'): for a square regular A the result X satisfies A X = B.
    The entries of X become symbols whose value at an evaluation point is the solution of the system at that point; that the system is
    regular (generically) is an obligation."""
    if ip.mode != 'sym':
        return NotImplemented
    import solver
    c = ip.ctx
    A = [[lift(x) for x in r.d] for r in args[0].d]
    R = [[lift(x) for x in r.d] for r in args[1].d]
    n = len(A)
    if n == 0 or any(len(r) != n for r in A) or len(R) != n:
        return NotImplemented
    X = _linsys(ip, A, R)
    out = args[1].copy()
    for i in range(n):
        for j in range(len(R[0])):
            out.d[i].d[j] = X[i][j]
    return out


def _linsys(ip, A, R):
    """fresh symbols for the solution X of A X = R; regularity of A is an obligation"""
    import solver
    c = ip.ctx
    n = len(A)
    rank = None
    for _ in range(200):
        g = solver.Gf(c.rng, positive=c.positive)
        try:
            rank = solver.gf_rank([eval_gf(r, g.assign, memo=g.memo) for r in A], g.p)
            break
        except (NonResidue, DivZero):
            continue
    if rank is None:
        raise Unsupported('rank of a linear system')
    if rank < n:
        c.flush()
        c.fail('the linear system solved is regular', 'rank %d of %d for all inputs' % (rank, n))
        raise solver.PathAbort()
    c.oblig('the linear system solved is regular', 'ok', 'pit')
    k0 = _nlin[0]
    _nlin[0] += 1
    S = solver.LinSys(A, R)
    X = [[var('_x%d_%d_%d' % (k0, i, j)) for j in range(len(R[0]))] for i in range(n)]
    for i in range(n):
        for j in range(len(R[0])):
            solver.LIN[X[i][j].id] = (S, i, j)
    return X


def make_inverse(ip, fn, args, this):
    """MathUtils::MakeInverse (Eigen, assumed; sampled by contract 'matinv'): for a square regular A the result X satisfies A X = 1"""
    if ip.mode != 'sym':
        return NotImplemented
    A = [[lift(x) for x in r.d] for r in args[0].d]
    n = len(A)
    if n == 0 or any(len(r) != n for r in A):
        return NotImplemented
    X = _linsys(ip, A, [[ONE if i == j else ZERO for j in range(n)] for i in range(n)])
    args[1].d[:] = [Vec(list(r), 'double') for r in X]
    return True


def solve_banded(ip, fn, args, this):
    """MathUtils::SolveLinearSystemBanded (Eigen, assumed; sampled by contract 'solveband'): A[i][i - bandwidth/2 + k] = matrix[i][k], A X = B"""
    if ip.mode != 'sym':
        return NotImplemented
    n, M, bw, R, out = args
    A = [[ZERO] * n for _ in range(n)]
    for i in range(n):
        for k in range(bw):
            j = i - bw // 2 + k
            if 0 <= j < n:
                A[i][j] = lift(M.d[i].d[k])
    X = _linsys(ip, A, [[lift(x) for x in r.d] for r in R.d])
    for i in range(n):
        for j in range(len(X[0])):
            out.d[i].d[j] = X[i][j]
    return True


def _increasing(ip, key, n, same=()):
    """0 = u_0 < u_1 < ... < u_{n-1} = 1, the same for the same points; equal where consecutive points are the same"""
    c = ip.ctx
    m = c.__dict__.setdefault('parmemo', {})
    if key not in m:
        eq = [i in same for i in range(n - 1)]
        cl = [0]
        for e in eq:
            cl.append(cl[-1] + (0 if e else 1))
        ds = [ZERO] + [var('_u%d_%d' % (len(m), i)) for i in range(1, cl[-1])] + [ONE]
        c.add_chain(ds)
        ts = [ds[k] for k in cl]
        m[key] = ts
    return [x.a if isc(x) else x for x in m[key]]


def _ptkey(vec):
    return tuple(x.id if isinstance(x, T) else x for p in vec.d for x in p.f['m_xyz'].d)


def chord_params(kind):
    def f(ip, fn, args, this):
        """chord / centripetal parametrisation of pairwise distinct points: 0 < ... < 1 (contract 'chordpar')"""
        if ip.mode != 'sym' or len(args[0].d) < 3:
            return NotImplemented
        k = _ptkey(args[0])
        n = len(args[0].d)
        same = [i for i in range(n - 1) if k[3 * i:3 * i + 3] == k[3 * i + 3:3 * i + 6]]
        if len(same) == n - 1:
            return NotImplemented
        return Vec(_increasing(ip, (kind, k), n, same), 'double')
    return f


def mesh_params(ip, fn, args, this):
    """parameters of a grid of pairwise distinct points: two increasing sequences 0 < ... < 1 (contract 'meshpar')"""
    if ip.mode != 'sym':
        return NotImplemented
    rows = args[0].d
    key = tuple(_ptkey(r) for r in rows)
    args[1].d[:] = _increasing(ip, ('meshu', key), len(rows))
    args[2].d[:] = _increasing(ip, ('meshv', key), len(rows[0].d))
    return True


INTERP = dict(GENERIC)
INTERP['MathUtils::SolveLinearSystem'] = solve_linear
INTERP['MathUtils::MakeInverse'] = make_inverse
INTERP['MathUtils::SolveLinearSystemBanded'] = solve_banded
INTERP['Interpolation::GetChordParameterization'] = chord_params('chord')
INTERP['Interpolation::GetCentripetalParameterization'] = chord_params('centripetal')
INTERP['Interpolation::GetSurfaceMeshParameterization'] = mesh_params


def _fresh_pos(ip, tag, key):
    c = ip.ctx
    m = c.__dict__.setdefault('lenmemo', {})
    k = (tag, key)
    if k not in m:
        nm = '_%s%d' % (tag, len(m))
        c.positive.add(nm)
        m[k] = var(nm)
        c.assume(B('lt', ZERO, m[k]))
    return m[k]


def distance(ip, fn, args, this):
    """XYZ::Distance of two different points: some positive number, the same for the same points (contract 'xyz')"""
    if ip.mode != 'sym':
        return NotImplemented
    a = tuple(lift(x).id for x in this.f['m_xyz'].d)
    b = tuple(lift(x).id for x in args[0].f['m_xyz'].d)
    if a == b:
        return NotImplemented
    return _fresh_pos(ip, 'd', tuple(sorted((a, b))))


def length(ip, fn, args, this):
    """XYZ::Length of a vector that is not identically zero: some positive number (contract 'xyz')"""
    if ip.mode != 'sym':
        return NotImplemented
    v = [lift(x) for x in this.f['m_xyz'].d]
    if all(isc(x) for x in v):
        return NotImplemented
    return _fresh_pos(ip, 'l', tuple(x.id for x in v))


def tangents(ip, fn, args, this):
    """Interpolation::ComputeTangent: some vector per point, the same for the same points (contracts 'bessel', 'tangent5')"""
    if ip.mode != 'sym':
        return NotImplemented
    P = args[0]
    n = len(P.d)
    if n < 5 and len(args) > 1:
        return NotImplemented
    c = ip.ctx
    m = c.__dict__.setdefault('tanmemo', {})
    k = (len(args), _ptkey(P))
    if k not in m:
        m[k] = [[var('_t%d_%d_%d' % (len(m), i, j)) for j in range(3)] for i in range(n)]
    out = P.copy()
    for i in range(n):
        for j in range(3):
            out.d[i].f['m_xyz'].d[j] = m[k][i][j]
    if len(args) == 1:
        return out
    args[1].d[:] = out.d
    return True


LOCAL = dict(INTERP)
LOCAL['XYZ::Distance'] = distance
LOCAL['XYZ::Length'] = length
LOCAL['Interpolation::ComputeTangent'] = tangents


def _positive_gt(ip, fn, args, this):
    """generic position also for comparisons with zero: a quantity shown positive exceeds the tolerance"""
    if ip.mode == 'sym':
        a, b, tol = args
        if isinstance(a, T) and isc(lift(b)) and lift(b).a == 0 and isinstance(tol, Fraction) and tol <= Fraction(1, 10 ** 6):
            s = ip.sign(a)
            if s == '+':
                return True
            if s in ('-', '0-', '0'):
                return False
            if s == '0+':
                from solver import pit_zero
                z = pit_zero(a, ip.ctx.rng, ip.ctx.positive)
                if z is not None:
                    return not z
    return TOLERANCE['MathUtils::IsGreaterThan'](ip, fn, args, this)


GENERICSIGN = dict(GENERIC)
GENERICSIGN['MathUtils::IsGreaterThan'] = _positive_gt

LINEAR = dict(GENERICSIGN)
LINEAR['MathUtils::SolveLinearSystem'] = solve_linear
LINEAR['MathUtils::MakeInverse'] = make_inverse
LINEAR['MathUtils::SolveLinearSystemBanded'] = solve_banded
LINEAR['Interpolation::GetChordParameterization'] = INTERP['Interpolation::GetChordParameterization']


class RawMem:
    """storage from a memory pool: becomes an object of the type it is first cast to (fields uninitialised)"""


def _pool(ip, fn, args, this):
    return RawMem()


def _nothing(ip, fn, args, this):
    return None


SWEEP = dict(EXACT)
SWEEP['VoronoiDiagramGenerator::getfree'] = _pool
SWEEP['VoronoiDiagramGenerator::insertVertexAddress'] = _nothing
SWEEP['VoronoiDiagramGenerator::insertVertexLink'] = _nothing
