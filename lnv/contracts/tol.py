"""C28: tolerance comparisons, combinatorial numbers, small matrices."""
from .base import *
from math import comb, factorial, nan, inf

CMP = {'IsAlmostEqualTo': 'eq', 'IsGreaterThan': 'gt', 'IsGreaterThanOrEqual': 'ge', 'IsLessThan': 'lt', 'IsLessThanOrEqual': 'le'}


def _cases(tier, lits):
    return [{'fn': f, 'tol': t, 's': s} for f in CMP for t in (None, 'sym') for s in (1, 1e-6, 1e-4, 3e-7)]


@contract('tolerance.compare', ['MathUtils::' + f for f in CMP] + ['MathUtils::IsNaN', 'MathUtils::IsInfinite'], _cases, summaries='none', unbounded=True, trials=20,
          note='|a-b| compared against tol*(1+max(|a|,|b|)), default tolerance 1e-6; the contract every caller relies on')
def compare(E, c):
    a = E.real('a', -50, 50)
    b = a + E.real('d') * c['s'] if c['s'] != 1 else E.real('b', -50, 50)
    tol = E.pos('tol', 1e-8, 1e-2) if c['tol'] else 1e-6
    if not E.sym and c['tol'] is None:
        pass
    r = E.ok('MathUtils::' + c['fn'], a, b, tol).ret
    eps = tol * (1 + E.max(E.abs(a), E.abs(b)))
    k = CMP[c['fn']]
    if k == 'eq':
        E.iff('almost equal iff |a-b| <= tol(1+max)', r, 'le', E.abs(a - b), eps)
    elif k == 'gt':
        E.iff('greater iff a-b > tol(1+max)', r, 'lt', eps, a - b)
    elif k == 'ge':
        E.iff('greater-or-equal iff a-b >= -tol(1+max)', r, 'le', -eps, a - b)
    elif k == 'lt':
        E.iff('less iff b-a > tol(1+max)', r, 'lt', eps, b - a)
    else:
        E.iff('less-or-equal iff a-b <= tol(1+max)', r, 'le', a - b, eps)


@contract('tolerance.special', ['MathUtils::' + f for f in CMP],
          [{'fn': f, 'a': a, 'b': b} for f in CMP for a, b in ((nan, 1.0), (1.0, nan), (nan, nan), (inf, inf), (-inf, inf), (inf, 1.0), (1.0, -inf))], summaries='none', unbounded=True, trials=1,
          note='NaN compares false with everything')
def special(E, c):
    a, b = c['a'], c['b']
    r = E.ok('MathUtils::' + c['fn'], a, b, 1e-6).ret
    if a != a or b != b:
        E.check('comparison with NaN is false', r is False or r == 0)
    elif c['fn'] == 'IsAlmostEqualTo':
        E.check('infinities are equal only to themselves', bool(r) == (a == b))


@contract('tolerance.constants', ['MathUtils::IsAlmostEqualTo'], [{'k': 0}], summaries='base', unbounded=True, trials=1,
          note='the default tolerance is 1e-6: observed through a caller that passes none (knot multiplicity)')
def constants(E, c):
    kv = [0.0, 0.0, 0.5, 1.0, 1.0]
    E.same_int('knots 4e-6 apart are different', E.ok('Polynomials::GetKnotMultiplicity', kv, 0.5 + 4e-6).ret, 0)
    E.same_int('knots 4e-7 apart are equal', E.ok('Polynomials::GetKnotMultiplicity', kv, 0.5 + 4e-7).ret, 1)


@contract('binomial', ['MathUtils::Binomial'], lambda tier, lits: [{'n': n} for n in range(0, 41)], trials=1, bound='n <= 40')
def binomial(E, c):
    n = c['n']
    for i in range(-1, n + 2):
        E.eq('C(%d,%d)' % (n, i), E.ok('MathUtils::Binomial', n, i).ret, comb(n, i) if 0 <= i <= n else 0, 1e-12)


@contract('factorial', ['MathUtils::Factorial'], [{'n': n} for n in range(-2, 23)], trials=1, bound='n in -2..22 (complete: larger n throw)')
def fact(E, c):
    n = c['n']
    r = E.call('MathUtils::Factorial', n)
    if n > 20:
        E.check('n > 20 is rejected', r.exc == 'std::invalid_argument')
    else:
        E.check('n! is computed', r.exc is None and r.ret == (factorial(n) if n >= 0 else -1))


@contract('angles', ['MathUtils::RadiansToAngle', 'MathUtils::AngleToRadians'], unbounded=True)
def angles(E, c):
    a = E.real('a', -20, 20)
    r = E.ok('MathUtils::AngleToRadians', a).ret
    E.eq('radians = degrees*pi/180', r * 180, a * E.pi)
    E.eq('conversion is inverse', E.ok('MathUtils::RadiansToAngle', r).ret, a)


def _mm(tier, lits):
    return [{'m': m, 'n': n, 'p': p} for m in (1, 2, 3) for n in (1, 2, 3) for p in (1, 2, 3)]


def mat(E, nm, m, n):
    return [[E.real('%s%d_%d' % (nm, i, j)) for j in range(n)] for i in range(m)]


@contract('matmul', ['MathUtils::MatrixMultiply', 'MathUtils::Transpose', 'MathUtils::GetColumn'], _mm, bound='matrices up to 3x3')
def matmul(E, c):
    A = mat(E, 'a', c['m'], c['n'])
    Bm = mat(E, 'b', c['n'], c['p'])
    R = E.ok('MathUtils::MatrixMultiply', A, Bm).ret
    E.eq('product entry', R, [[sum(A[i][k] * Bm[k][j] for k in range(c['n'])) for j in range(c['p'])] for i in range(c['m'])])
    T = E.ok('MathUtils::Transpose|vector<vector<double>> &', A, None).out[0]
    E.eq('transpose', T, [[A[i][j] for i in range(c['m'])] for j in range(c['n'])])
    for j in range(c['n']):
        E.eq('column', E.ok('MathUtils::GetColumn|vector<double> (', A, j).ret, [A[i][j] for i in range(c['m'])])


@contract('matmake', ['MathUtils::MakeDiagonal', 'MathUtils::CreateMatrix'], [{'n': n, 'm': m} for n in range(1, 6) for m in range(1, 4)], trials=1, bound='sizes up to 5')
def matmake(E, c):
    n, m = c['n'], c['m']
    E.eq('identity matrix', E.ok('MathUtils::MakeDiagonal', n).ret, [[1 if i == j else 0 for j in range(n)] for i in range(n)])
    E.eq('zero matrix', E.ok('MathUtils::CreateMatrix', n, m).ret, [[0] * m for i in range(n)])


@contract('matinv', ['MathUtils::MakeInverse', 'MathUtils::GetDeterminant', 'MathUtils::SolveLinearSystem', 'MathUtils::SolveLinearSystemBanded'],
          [{'n': n, 'r': r} for n in (1, 2, 3, 4, 6) for r in (1, 2, 3)], native_only=True, trials=12,
          note='bodies are calls into Eigen: outside the verifier; bounded concrete check of the assumed contract A*X=B')
def matinv(E, c):
    n = c['n']
    A = [[E.real('a%d_%d' % (i, j)) + (8 if i == j else 0) for j in range(n)] for i in range(n)]
    Bm = mat(E, 'b', n, c['r'])
    r = E.ok('MathUtils::MakeInverse', A, None)
    X = r.out[0]
    E.check('inverse found', r.ret)
    E.eq('A * inverse(A) = I', [[sum(A[i][k] * X[k][j] for k in range(n)) for j in range(n)] for i in range(n)], [[1 if i == j else 0 for j in range(n)] for i in range(n)])
    S = E.ok('MathUtils::SolveLinearSystem', A, Bm).ret
    E.eq('A * solution = right side', [[sum(A[i][k] * S[k][j] for k in range(n)) for j in range(c['r'])] for i in range(n)], Bm)
    d = E.ok('MathUtils::GetDeterminant', A).ret
    def det(M):
        if len(M) == 1: return M[0][0]
        return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))
    E.eq('determinant', d, det(A))
    # banded: half bandwidth w
    if n >= 3:
        w = 1 if n == 3 else 2
        bw = 2 * w + 1
        band = [[A[i][i - w + k] if 0 <= i - w + k < n else 0.0 for k in range(bw)] for i in range(n)]
        q = E.ok('MathUtils::SolveLinearSystemBanded', n, band, bw, Bm, [[0.0] * c['r'] for _ in range(n)])
        E.check('banded system solved', q.ret)
        S = q.out[0]
        E.eq('banded A * solution = right side', [[sum(A[i][k] * S[k][j] for k in range(n) if abs(i - k) <= w) for j in range(c['r'])] for i in range(n)], Bm)


@contract('cubicroot', ['MathUtils::ComputerCubicEquationsWithOneVariable'], [{'r': r} for r in ('mono', 'near', 'quad')], native_only=True, trials=20,
          note='Newton iteration from 1/2: the returned value is a root, for monotone cubics, cubics whose root is near 1/2 and quadratics')
def cubicroot(E, c):
    x = E.real('x', -5, 5)
    if c['r'] == 'mono':
        a, b, d = E.pos('a', 0.2, 3), E.real('b', -1, 1), E.pos('d', 1, 5)      # b^2 < 3ad: increasing
        d = d + b * b / a
    elif c['r'] == 'near':
        x = 0.5 + 0.05 * x / 5
        a, b, d = E.real('a', -1, 1), E.real('b', -1, 1), E.pos('d', 6, 9)
    else:
        a, b = 0.0, E.pos('b', 0.5, 3)
        x = 0.6 + E.abs(x)
        d = E.real('d', 0, 1)
    k = -(a * x ** 3 + b * x ** 2 + d * x)
    r = E.ok('MathUtils::ComputerCubicEquationsWithOneVariable', a, b, d, k).ret
    E.eq('the value is a root', a * r ** 3 + b * r ** 2 + d * r + k, 0, 1e-4)
    if c['r'] != 'quad':
        E.eq('the root', r, x, 1e-4)
