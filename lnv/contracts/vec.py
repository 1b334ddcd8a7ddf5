"""C19, C20: vectors, homogeneous points, 4x4 transforms."""
from .base import *
import spec
from fractions import Fraction

ADD = lambda a, b: tuple(x + y for x, y in zip(a, b))
SUB = lambda a, b: tuple(x - y for x, y in zip(a, b))
MUL = lambda a, k: tuple(x * k for x in a)
DOT = lambda a, b: sum((x * y for x, y in zip(a, b)), 0)
CROSS = lambda a, b: (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


@contract('normalize', ['XYZ::Normalize', 'XYZ::Length', 'XYZ::SqrLength', 'UV::Normalize', 'UV::Length', 'UV::SqrLength'], [{'T': 'XYZ', 'n': 3}, {'T': 'UV', 'n': 2}], summaries='none', unbounded=True, trials=20,
          note='v/|v| for every non-zero v, the zero vector for the zero vector; the receiver is unchanged')
def normalize(E, c):
    T, n = c['T'], c['n']
    v = tuple(E.real('v.' + 'xyz'[i]) for i in range(n))
    d2 = DOT(v, v)
    E.eq('squared length', E.ok(T + '::SqrLength', this=v).ret, d2)
    E.eq('length', E.ok(T + '::Length', this=v).ret, E.sqrt(d2))
    z = E.ok(T + '::Normalize', this=(0,) * n)
    E.eq('the zero vector stays zero', z.ret, (0,) * n)
    E.assume(E.gt0(d2))
    r = E.ok(T + '::Normalize', this=v)
    L = E.sqrt(d2)
    E.eq('normalised vector times length', MUL(r.ret, L), v)
    E.eq('receiver unchanged', r.this, v)
    E.eq('unit length', DOT(r.ret, r.ret), 1)


@contract('xyz', ['XYZ::operator+', 'XYZ::operator-', 'XYZ::operator*', 'XYZ::operator*=', 'XYZ::operator/=', 'XYZ::operator+=', 'XYZ::operator-=', 'XYZ::Add', 'XYZ::Substract', 'XYZ::Negative', 'XYZ::DotProduct', 'XYZ::CrossProduct', 'XYZ::Distance',
                  'operator*', 'operator/', 'operator^'], unbounded=True, trials=20)
def xyz(E, c):
    a, b = E.point('a'), E.point('b')
    k = E.pos('k') if c.get('pos', True) else E.real('k')
    s = E.real('s')
    E.eq('a + b', E.ok('XYZ::operator+', b, this=a).ret, ADD(a, b))
    E.eq('a - b', E.ok('XYZ::operator-|(const XYZ &) const', b, this=a).ret, SUB(a, b))
    E.eq('Add', E.ok('XYZ::Add', b, this=a).ret, ADD(a, b))
    E.eq('Substract', E.ok('XYZ::Substract', b, this=a).ret, SUB(a, b))
    E.eq('-a', E.ok('XYZ::operator-|() const', this=a).ret, MUL(a, -1))
    E.eq('Negative', E.ok('XYZ::Negative', this=a).ret, MUL(a, -1))
    E.eq('a * b = dot', E.ok('XYZ::operator*', b, this=a).ret, DOT(a, b))
    E.eq('DotProduct', E.ok('XYZ::DotProduct', b, this=a).ret, DOT(a, b))
    E.eq('CrossProduct', E.ok('XYZ::CrossProduct', b, this=a).ret, CROSS(a, b))
    E.eq('a ^ b = cross', E.ok('operator^|XYZ (', a, b).ret, CROSS(a, b))
    E.eq('a * s', E.ok('operator*|XYZ (const XYZ &, const double', a, s).ret, MUL(a, s))
    E.eq('s * a', E.ok('operator*|XYZ (const double', s, a).ret, MUL(a, s))
    E.eq('a / k', MUL(E.ok('operator/|XYZ (', a, k).ret, k), a)
    E.eq('a *= s', E.ok('XYZ::operator*=', s, this=a).this, MUL(a, s))
    E.eq('a /= k', MUL(E.ok('XYZ::operator/=', k, this=a).this, k), a)
    E.eq('a += b', E.ok('XYZ::operator+=', b, this=a).this, ADD(a, b))
    E.eq('a -= b', E.ok('XYZ::operator-=', b, this=a).this, SUB(a, b))
    d = SUB(a, b)
    dist = E.ok('XYZ::Distance', b, this=a).ret
    E.eq('distance', dist, E.sqrt(DOT(d, d)))


@contract('uvw', ['UV::operator+', 'UV::operator-', 'UV::operator*', 'UV::operator*=', 'UV::operator/=', 'UV::operator+=', 'UV::operator-=', 'UV::Add', 'UV::Substract', 'UV::Negative', 'UV::DotProduct', 'UV::CrossProduct', 'UV::Distance'], unbounded=True, trials=20)
def uvw(E, c):
    a, b = E.point('a', 2), E.point('b', 2)
    k, s = E.pos('k'), E.real('s')
    E.eq('a + b', E.ok('UV::operator+', b, this=a).ret, ADD(a, b))
    E.eq('a - b', E.ok('UV::operator-|(const UV &) const', b, this=a).ret, SUB(a, b))
    E.eq('Add', E.ok('UV::Add', b, this=a).ret, ADD(a, b))
    E.eq('Substract', E.ok('UV::Substract', b, this=a).ret, SUB(a, b))
    E.eq('-a', E.ok('UV::operator-|() const', this=a).ret, MUL(a, -1))
    E.eq('Negative', E.ok('UV::Negative', this=a).ret, MUL(a, -1))
    E.eq('a * b = dot', E.ok('UV::operator*', b, this=a).ret, DOT(a, b))
    E.eq('DotProduct', E.ok('UV::DotProduct', b, this=a).ret, DOT(a, b))
    x = a[0] * b[1] - a[1] * b[0]
    E.eq('CrossProduct', E.ok('UV::CrossProduct', b, this=a).ret, x)
    E.eq('a ^ b', E.ok('operator^|double (', a, b).ret, x)
    E.eq('a * s', E.ok('operator*|UV (const UV &, const double', a, s).ret, MUL(a, s))
    E.eq('s * a', E.ok('operator*|UV (const double', s, a).ret, MUL(a, s))
    E.eq('a / k', MUL(E.ok('operator/|UV (', a, k).ret, k), a)
    E.eq('a *= s', E.ok('UV::operator*=', s, this=a).this, MUL(a, s))
    E.eq('a /= k', MUL(E.ok('UV::operator/=', k, this=a).this, k), a)
    E.eq('a += b', E.ok('UV::operator+=', b, this=a).this, ADD(a, b))
    E.eq('a -= b', E.ok('UV::operator-=', b, this=a).this, SUB(a, b))
    d = SUB(a, b)
    E.eq('distance', E.ok('UV::Distance', b, this=a).ret, E.sqrt(DOT(d, d)))


@contract('xyzw', ['XYZW::XYZW', 'XYZW::ToXYZ', 'XYZW::SetW', 'XYZW::operator+', 'XYZW::operator-', 'XYZW::operator+=', 'operator*', 'operator/', 'XYZW::Distance'], unbounded=True, trials=20)
def xyzw(E, c):
    p, w, w2 = E.point('p'), E.pos('w'), E.pos('w2')
    h = E.ok('XYZW::XYZW|(XYZ, double)', p, w).ret
    E.eq('homogeneous form (w*p, w)', h, MUL(p, w) + (w,))
    E.eq('projection undoes it', E.ok('XYZW::ToXYZ', True, this=h).ret, p)
    E.eq('without division: w*p', E.ok('XYZW::ToXYZ', False, this=h).ret, MUL(p, w))
    E.eq('SetW keeps the Cartesian point', E.ok('XYZW::SetW', w2, this=h).this, MUL(p, w2) + (w2,))
    a = E.wpoint('a')
    b = E.wpoint('b')
    s, k = E.real('s'), E.pos('k')
    E.eq('a + b', E.ok('XYZW::operator+', b, this=a).ret, ADD(a, b))
    E.eq('a - b', E.ok('XYZW::operator-', b, this=a).ret, SUB(a, b))
    E.eq('a += b', E.ok('XYZW::operator+=', b, this=a).this, ADD(a, b))
    E.eq('a * s', E.ok('operator*|XYZW (const XYZW &, const double', a, s).ret, MUL(a, s))
    E.eq('s * a', E.ok('operator*|XYZW (const double', s, a).ret, MUL(a, s))
    E.eq('a / k', MUL(E.ok('operator/|XYZW (', a, k).ret, k), a)
    d = SUB(a, b)
    E.eq('distance', E.ok('XYZW::Distance', b, this=a).ret, E.sqrt(DOT(d, d)))


@contract('cputils', ['ControlPointsUtils::ToXYZ', 'ControlPointsUtils::ToXYZW', 'ControlPointsUtils::Multiply'], [{'m': m, 'n': n, 'p': p} for m, n, p in ((1, 1, 1), (2, 3, 2), (3, 2, 4), (1, 4, 3), (3, 3, 1))], trials=6, bound='nets up to 3x4')
def cputils(E, c):
    """nets of points: projection, embedding with weight 1, products with a coefficient matrix on either side"""
    m, n, p = c['m'], c['n'], c['p']
    P = E.wnet('P', m, n)
    Q = E.net('Q', m, n)
    E.eq('list of Cartesian points', E.ok('ControlPointsUtils::ToXYZ|vector<XYZ> (const vector<XYZW>', P[0]).ret, [spec.proj(x) for x in P[0]])
    E.eq('net of Cartesian points', E.ok('ControlPointsUtils::ToXYZ|vector<vector<XYZ>> (', P).ret, [[spec.proj(x) for x in r] for r in P])
    E.eq('weight 1 for Cartesian points', E.ok('ControlPointsUtils::ToXYZW', Q).ret, [[tuple(x) + (1,) for x in r] for r in Q])
    K = [[E.real('k%d_%d' % (i, j)) for j in range(p)] for i in range(n)]
    L = [[E.real('l%d_%d' % (i, j)) for j in range(m)] for i in range(p)]

    def comb(cs, xs):
        r = MUL(xs[0], cs[0])
        for a, x in zip(cs[1:], xs[1:]):
            r = ADD(r, MUL(x, a))
        return r
    E.eq('net times matrix', E.ok('ControlPointsUtils::Multiply|(const vector<vector<XYZW>>', P, K).ret, [[comb([K[k][j] for k in range(n)], P[i]) for j in range(p)] for i in range(m)])
    E.eq('matrix times net', E.ok('ControlPointsUtils::Multiply|(const vector<vector<double>>', L, P).ret, [[comb(L[i], [P[k][j] for k in range(m)]) for j in range(n)] for i in range(p)])


@contract('vecpred', ['XYZ::IsZero', 'XYZ::IsUnit', 'XYZ::IsAlmostEqualTo', 'UV::IsZero', 'UV::IsUnit', 'UV::IsAlmostEqualTo', 'XYZW::IsAlmostEqualTo'], [{'T': T, 'k': k} for T in ('XYZ', 'UV') for k in ('zero', 'unit', 'eq')] + [{'T': 'XYZ', 'k': 'eq', 'd': d} for d in (0, 1, 2)], summaries='base', unbounded=True, trials=30)
def vecpred(E, c):
    T = c['T']
    n = 3 if T == 'XYZ' else 2
    v = tuple(E.real('v.' + 'xyz'[i]) for i in range(n))
    if c['k'] == 'zero':
        e = E.pos('e', 0.5, 4)
        E.iff('zero iff |v| <= eps', E.ok(T + '::IsZero', e, this=v).ret, 'le', DOT(v, v), e * e)
    elif c['k'] == 'unit':
        e = E.pos('e', 0.5, 4)
        E.iff('unit iff ||v|^2-1| < eps^2', E.ok(T + '::IsUnit', e, this=v).ret, 'lt', E.abs(DOT(v, v) - 1), e * e)
    else:
        if 'd' in c:
            w = tuple(x + (E.real('g') * 1e-5 if i == c['d'] else 0) for i, x in enumerate(v))
        else:
            w = tuple(x + E.real('w%d' % i) * 1e-6 for i, x in enumerate(v))
        r = E.ok(T + '::IsAlmostEqualTo', w, this=v).ret
        E.iffall('almost equal iff every coordinate is', r, [('le', E.abs(x - y), (1 + E.max(E.abs(x), E.abs(y))) * Fraction(1, 10 ** 6)) for x, y in zip(v, w) if x is not y])


@contract('angleto', ['XYZ::AngleTo'], [{'k': k} for k in range(8)], native_only=True, trials=12, note='uses acos: outside the real-arithmetic prover; concrete check of cos(angle)|a||b| = a.b')
def angleto(E, c):
    import math
    a, b = E.point('a'), E.point('b')
    if c['k'] == 1:
        b = MUL(a, 2.5)
    elif c['k'] == 2:
        b = MUL(a, -0.7)
    elif c['k'] == 3:
        b = CROSS(a, b)
    elif c['k'] == 4:
        b = (0.0, 0.0, 0.0)
    elif c['k'] == 5:
        b = ADD(MUL(a, -1), MUL(b, 0.2))
    la, lb = math.sqrt(DOT(a, a)), math.sqrt(DOT(b, b))
    r = E.ok('XYZ::AngleTo', b, this=a).ret
    if la < 1e-3 or lb < 1e-3:
        E.eq('angle with the zero vector is 0', r, 0)
        return
    E.le('angle >= 0', 0, r)
    E.le('angle <= pi', r, math.pi)
    E.eq('cosine of the angle', math.cos(r), DOT(a, b) / la / lb, 1e-6)


@contract('orthogonal', ['XYZ::CreateRandomOrthogonal'], [{'k': k} for k in range(4)], native_only=True, noconf=True, trials=12, note='random direction: concrete check of orthogonality and unit length')
def orthogonal(E, c):
    a = E.point('a')
    E.assume(DOT(a, a) > 1e-2 and not (abs(a[0] - a[1]) < 1e-2 and abs(a[0] + a[2]) < 1e-2))
    n = tuple(x / DOT(a, a) ** 0.5 for x in a)
    t = CROSS(n, (-n[2], n[0], n[1]))
    E.assume(DOT(t, t) > 1e-3)
    r = E.ok('XYZ::CreateRandomOrthogonal', a).ret
    E.eq('orthogonal', DOT(r, a), 0)
    E.eq('unit', DOT(r, r), 1)


# ------------------------------------------------------------------ C20: transforms
def M(E, nm, affine=True):
    r = [[E.real('%s%d%d' % (nm, i, j)) for j in range(4)] for i in range(3)]
    return r + ([[0, 0, 0, 1]] if affine else [[E.real('%s3%d' % (nm, j)) for j in range(4)]])


def mk(E, A):
    return E.ok('Matrix4d::Matrix4d|(double', *[x for r in A for x in r]).ret


def rows(m):
    return [list(m[4 * i:4 * i + 4]) for i in range(4)]


def app(A, p):
    return tuple(sum((A[i][j] * p[j] for j in range(3)), A[i][3]) for i in range(3))


@contract('mataffine', ['Matrix4d::Matrix4d', 'Matrix4d::OfPoint', 'Matrix4d::OfVector', 'Matrix4d::OfWeightedPoint', 'Matrix4d::Multiply', 'Matrix4d::GetTranspose', 'Matrix4d::GetElement', 'Matrix4d::SetElement', 'Matrix4d::GetBasisX', 'Matrix4d::GetBasisY', 'Matrix4d::GetBasisZ', 'Matrix4d::GetBasisW',
                        'Matrix4d::SetBasisX', 'Matrix4d::SetBasisY', 'Matrix4d::SetBasisZ', 'Matrix4d::SetBasisW', 'operator*', 'operator+', 'operator-'], unbounded=True, trials=12)
def mataffine(E, c):
    A, Bm = M(E, 'a'), M(E, 'b')
    p, w = E.point('p'), E.pos('w')
    a, b = mk(E, A), mk(E, Bm)
    E.eq('constructor', rows(a), A)
    E.eq('identity by default', rows(E.ok('Matrix4d::Matrix4d|()').ret), [[1 if i == j else 0 for j in range(4)] for i in range(4)])
    E.eq('point image', E.ok('Matrix4d::OfPoint', p, this=a).ret, app(A, p))
    E.eq('vector image', E.ok('Matrix4d::OfVector', p, this=a).ret, SUB(app(A, p), app(A, (0, 0, 0))))
    E.eq('weighted point image keeps the weight', E.ok('Matrix4d::OfWeightedPoint', MUL(p, w) + (w,), this=a).ret, MUL(app(A, p), w) + (w,))
    C = [[sum(A[i][k] * Bm[k][j] for k in range(4)) for j in range(4)] for i in range(4)]
    ab = E.ok('Matrix4d::Multiply', b, this=a).ret
    E.eq('product', rows(ab), C)
    E.eq('operator*', rows(E.ok('operator*|Matrix4d (', a, b).ret), C)
    E.eq('composition: (AB)p = A(Bp)', E.ok('Matrix4d::OfPoint', p, this=ab).ret, app(A, app(Bm, p)))
    E.eq('sum', rows(E.ok('operator+|Matrix4d (', a, b).ret), [[A[i][j] + Bm[i][j] for j in range(4)] for i in range(4)])
    E.eq('difference', rows(E.ok('operator-|Matrix4d (', a, b).ret), [[A[i][j] - Bm[i][j] for j in range(4)] for i in range(4)])
    E.eq('transpose', rows(E.ok('Matrix4d::GetTranspose', this=a).ret), [[A[j][i] for j in range(4)] for i in range(4)])
    for j, n in enumerate('XYZW'):
        E.eq('basis ' + n, E.ok('Matrix4d::GetBasis' + n, this=a).ret, (A[0][j], A[1][j], A[2][j]))
        s = rows(E.ok('Matrix4d::SetBasis' + n, p, this=a).this)
        E.eq('set basis ' + n, s, [[p[i] if jj == j and i < 3 else A[i][jj] for jj in range(4)] for i in range(4)])
    E.eq('from basis vectors', rows(E.ok('Matrix4d::Matrix4d|(XYZ', *[(A[0][j], A[1][j], A[2][j]) for j in range(4)]).ret), A)
    for i in range(4):
        for j in range(4):
            E.eq('element', E.ok('Matrix4d::GetElement', i, j, this=a).ret, A[i][j])
    E.eq('set element', rows(E.ok('Matrix4d::SetElement', 1, 2, w, this=a).this), [[w if (i, j) == (1, 2) else A[i][j] for j in range(4)] for i in range(4)])
    sc = E.ok('Matrix4d::GetScale', this=a).ret
    E.eq('scale = lengths of the basis vectors', sc, tuple(E.sqrt(sum(A[i][j] * A[i][j] for i in range(3))) for j in range(3)))


@contract('matgeneral', ['Matrix4d::Matrix4d', 'Matrix4d::Multiply', 'Matrix4d::GetTranspose', 'Matrix4d::GetElement', 'Matrix4d::SetElement', 'operator*', 'operator+', 'operator-'], unbounded=True, trials=6)
def matgeneral(E, c):
    """all sixteen elements free"""
    A, Bm = [[[E.real('%s%d%d' % (n, i, j)) for j in range(4)] for i in range(4)] for n in 'ab']
    w = E.real('w')
    a, b = mk(E, A), mk(E, Bm)
    E.eq('constructor', rows(a), A)
    C = [[sum(A[i][k] * Bm[k][j] for k in range(4)) for j in range(4)] for i in range(4)]
    E.eq('product', rows(E.ok('Matrix4d::Multiply', b, this=a).ret), C)
    E.eq('operator*', rows(E.ok('operator*|Matrix4d (', a, b).ret), C)
    E.eq('sum', rows(E.ok('operator+|Matrix4d (', a, b).ret), [[A[i][j] + Bm[i][j] for j in range(4)] for i in range(4)])
    E.eq('difference', rows(E.ok('operator-|Matrix4d (', a, b).ret), [[A[i][j] - Bm[i][j] for j in range(4)] for i in range(4)])
    E.eq('transpose', rows(E.ok('Matrix4d::GetTranspose', this=a).ret), [[A[j][i] for j in range(4)] for i in range(4)])
    for i in range(4):
        for j in range(4):
            E.eq('element', E.ok('Matrix4d::GetElement', i, j, this=a).ret, A[i][j])
            E.eq('set element', rows(E.ok('Matrix4d::SetElement', i, j, w, this=a).this), [[w if (x, y) == (i, j) else A[x][y] for y in range(4)] for x in range(4)])


@contract('matrigid', ['Matrix4d::CreateTranslation', 'Matrix4d::CreateScale', 'Matrix4d::CreateReflection', 'Matrix4d::CreateRotation', 'Matrix4d::CreateRotationAtPoint'], [{'k': k} for k in ('t', 's', 'm', 'm0', 'r', 'rp')], summaries='gpz', unbounded=True, trials=16)
def matrigid(E, c):
    p, v = E.point('p'), E.point('v')
    k = c['k']
    if k == 't':
        m = E.ok('Matrix4d::CreateTranslation', v).ret
        E.eq('translation', E.ok('Matrix4d::OfPoint', p, this=m).ret, ADD(p, v))
        E.eq('vectors are not moved', E.ok('Matrix4d::OfVector', p, this=m).ret, p)
        return
    if k == 's':
        m = E.ok('Matrix4d::CreateScale', v).ret
        E.eq('scaling', E.ok('Matrix4d::OfPoint', p, this=m).ret, tuple(x * y for x, y in zip(p, v)))
        return
    d2 = DOT(v, v)
    E.assume(E.gt0(d2))
    L = E.sqrt(d2)
    n = tuple(x / L for x in v)
    if k in ('m', 'm0'):
        d = E.real('d') if k == 'm' else 0
        m = (E.ok('Matrix4d::CreateReflection|, double)', v, d) if k == 'm' else E.ok('Matrix4d::CreateReflection|(const XYZ &)', v)).ret
        q = E.ok('Matrix4d::OfPoint', p, this=m).ret
        # mirror plane n.x + d = 0
        E.eq('mirror image: midpoint on the plane', DOT(n, ADD(p, q)) + 2 * d, 0)
        E.eq('mirror image: displacement along the normal', CROSS(SUB(q, p), v), (0, 0, 0))
        E.eq('involution', E.ok('Matrix4d::OfPoint', q, this=m).ret, p)
        return
    t = E.angle('t')
    o = (0, 0, 0)
    if k == 'r':
        m = E.ok('Matrix4d::CreateRotation', v, t).ret
    else:
        o = E.point('o')
        m = E.ok('Matrix4d::CreateRotationAtPoint', o, v, t).ret
    q = SUB(E.ok('Matrix4d::OfPoint', p, this=m).ret, o)
    pp = SUB(p, o)
    co, si = E.cos(t), E.sin(t)
    want = ADD(ADD(MUL(pp, co), MUL(CROSS(n, pp), si)), MUL(n, DOT(n, pp) * (1 - co)))
    E.eq('rotation about the axis (Rodrigues)', q, want)
    E.eq('the axis is fixed', E.ok('Matrix4d::OfPoint', ADD(o, v), this=m).ret, ADD(o, v))
    E.eq('lengths are kept', DOT(q, q), DOT(pp, pp))


@contract('matpred', ['Matrix4d::IsIdentity', 'Matrix4d::IsTranslation', 'Matrix4d::HasReflection'], [{'k': k, 'i': i, 'j': j} for k in ('one',) for i in range(4) for j in range(4)] + [{'k': 'two', 'i': i, 'j': 0} for i in range(3)] + [{'k': 'id'}, {'k': 'refl'}], summaries='base', unbounded=True, trials=8)
def matpred(E, c):
    I = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
    if c['k'] == 'refl':
        A = M(E, 'a')
        det = DOT(CROSS(*[tuple(A[i][j] for i in range(3)) for j in (0, 1)]), tuple(A[i][2] for i in range(3)))
        r = E.ok('Matrix4d::HasReflection', this=mk(E, A)).ret
        E.iff('reflection iff the basis is left handed (determinant below -tol(1+|det|))', r, 'lt', (1 + E.abs(det)) * Fraction(1, 10 ** 6), -det)
        return
    if c['k'] == 'id':
        a = mk(E, I)
        E.check('identity recognised', E.ok('Matrix4d::IsIdentity', this=a).ret)
        E.check('identity is a translation', E.ok('Matrix4d::IsTranslation', this=a).ret)
        v = E.point('v')
        t = E.ok('Matrix4d::CreateTranslation', v).ret
        E.check('a translation is a translation', E.ok('Matrix4d::IsTranslation', this=t).ret)
        return
    g = E.pos('g', 0.01, 2)
    E.assume(E.gt0(g - 0.001))
    i, j = c['i'], c['j']
    A = [list(r) for r in I]
    A[i][j] = A[i][j] + g
    if c['k'] == 'two':
        A[i][(i + 1) % 3] = A[i][(i + 1) % 3] - g
        A[i][j] = I[i][j]
        A[i][(i + 2) % 3] = A[i][(i + 2) % 3] + g
    a = mk(E, A)
    E.check('a matrix that moves points is not the identity', not E.ok('Matrix4d::IsIdentity', this=a).ret)
    if (i < 3 and j < 3) or c['k'] == 'two':
        E.check('a matrix that deforms is not a translation', not E.ok('Matrix4d::IsTranslation', this=a).ret)


@contract('matinv4', ['Matrix4d::GetInverse', 'Matrix4d::GetDeterminant'], [{'k': k} for k in range(4)], native_only=True, trials=10, note='bodies call Eigen through MathUtils: concrete check of A*inverse(A)=I and of the determinant')
def matinv4(E, c):
    A = M(E, 'a', c['k'] < 2)
    for i in range(4):
        A[i][i] = A[i][i] + 6.0
    a = mk(E, A)
    r = E.ok('Matrix4d::GetInverse', a, this=a)
    E.check('invertible', r.ret)
    X = rows(r.out[0])
    E.eq('A * inverse = I', [[sum(A[i][k] * X[k][j] for k in range(4)) for j in range(4)] for i in range(4)], [[1 if i == j else 0 for j in range(4)] for i in range(4)])

    def det(Q):
        return Q[0][0] if len(Q) == 1 else sum((-1) ** j * Q[0][j] * det([r[:j] + r[j + 1:] for r in Q[1:]]) for j in range(len(Q)))
    E.eq('determinant', E.ok('Matrix4d::GetDeterminant', this=a).ret, det(A))


KINDS = [{'T': 'UV', 'g': ('U', 'V')}, {'T': 'UVW', 'g': ('U', 'V', 'W')}, {'T': 'XYZ', 'g': ('X', 'Y', 'Z')}, {'T': 'XYZW', 'g': ('WX', 'WY', 'WZ', 'W')}]


@contract('access', ['%s::%s%s' % (k['T'], s, x) for k in KINDS for x in k['g'] for s in ('Get', '', 'Set')] + ['UV::operator[]', 'XYZ::operator[]', 'XYZW::operator[]'], KINDS, summaries='none', unbounded=True, trials=20)
def access(E, c):
    T, n = c['T'], len(c['g'])
    v, x = E.point('v', n), E.real('x')
    for i, k in enumerate(c['g']):
        E.eq('Get%s' % k, E.ok('%s::Get%s' % (T, k), this=v).ret, v[i])
        E.eq('%s()' % k, E.ok('%s::%s|double () const' % (T, k), this=v).ret, v[i])
        E.eq('%s() for writing' % k, E.ok('%s::%s|double &()' % (T, k), this=v).ret, v[i])
        if T != 'XYZW':
            E.eq('Set%s' % k, E.ok('%s::Set%s' % (T, k), x, this=v).this, v[:i] + (x,) + v[i + 1:])
        if T != 'UVW':
            E.eq('[%d]' % i, E.ok('%s::operator[]|(int) const' % T, i, this=v).ret, v[i])
