"""Hash-consed terms: reals (T), affine symbolic integers (SI) and boolean atoms (B)."""
from fractions import Fraction
import math, random

P61 = (1 << 61) - 1          # p = 3 mod 4

_tab = {}


class T:
    __slots__ = ('op', 'a', 'id', '__weakref__')

    def __new__(cls, op, a):
        if op == 'const':
            k = (op, a)
        elif op in ('var', 'sel'):
            k = (op, a)
        else:
            k = (op,) + tuple(x.id for x in a) if op != 'fn' else (op, a[0]) + tuple(x.id for x in a[1:])
        t = _tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.id = len(_tab)
            _tab[k] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):          # structural identity (hash-consed); use eq() for the atom
        return self is o

    # arithmetic
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self

    def __abs__(self): return abs_(self)

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return ONE / (self ** (-n))
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __bool__(self):
        raise TypeError('symbolic term used as a truth value')

    def __lt__(self, o): raise TypeError('use ctx')
    __gt__ = __le__ = __ge__ = __lt__

    def __repr__(self):
        return show(self)


def const(c):
    return T('const', Fraction(c))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)


def var(name):
    return T('var', name)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, SI):
        return si2t(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported('non-finite constant in symbolic arithmetic')
        return const(Fraction(x))
    raise TypeError('cannot lift %r' % (x,))


class Unsupported(Exception):
    pass


def isc(t):
    return t.op == 'const'


def add(a, b):
    if isc(a) and isc(b):
        return const(a.a + b.a)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    # cancel a + (-a)
    if a.op == 'neg' and a.a[0] is b:
        return ZERO
    if b.op == 'neg' and b.a[0] is a:
        return ZERO
    # constant folding: (x + c1) + c2
    if isc(b) and a.op == 'add' and isc(a.a[1]):
        return add(a.a[0], const(a.a[1].a + b.a))
    if isc(a):
        return add(b, a) if not isc(b) else const(a.a + b.a)
    if not isc(b) and b.id < a.id:
        a, b = b, a
    return T('add', (a, b))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def neg(a):
    if isc(a):
        return const(-a.a)
    if a.op == 'neg':
        return a.a[0]
    if a.op == 'add' :
        return add(neg(a.a[0]), neg(a.a[1]))
    if a.op == 'mul' and isc(a.a[0]):
        return mul(const(-a.a[0].a), a.a[1])
    return T('neg', (a,))


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.a * b.a)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is MONE:
        return neg(b)
    if b is MONE:
        return neg(a)
    if isc(b):
        a, b = b, a
    if isc(a):
        if b.op == 'mul' and isc(b.a[0]):
            return mul(const(a.a * b.a[0].a), b.a[1])
        if b.op == 'neg':
            return mul(const(-a.a), b.a[0])
        return T('mul', (a, b))
    if a.op == 'neg' and b.op == 'neg':
        return mul(a.a[0], b.a[0])
    if a.op == 'neg':
        return neg(mul(a.a[0], b))
    if b.op == 'neg':
        return neg(mul(a, b.a[0]))
    if b.id < a.id:
        a, b = b, a
    return T('mul', (a, b))


def div(a, b):
    if isc(b):
        if b.a == 0:
            raise ZeroDivisionError('division by constant zero')
        return mul(const(1 / b.a), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return T('div', (a, b))


def sqrt_(a):
    a = lift(a)
    if isc(a):
        v = a.a
        if v < 0:
            raise Unsupported('sqrt of negative constant')
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return const(Fraction(n, d))
    return T('sqrt', (a,))


def abs_(a):
    a = lift(a)
    if isc(a):
        return const(abs(a.a))
    if a.op in ('abs', 'sqrt'):
        return a
    if a.op == 'neg':
        return abs_(a.a[0])
    return T('abs', (a,))


def max_(a, b):
    a, b = lift(a), lift(b)
    if isc(a) and isc(b):
        return const(max(a.a, b.a))
    if a is b:
        return a
    return T('max', (a, b))


def min_(a, b):
    a, b = lift(a), lift(b)
    if isc(a) and isc(b):
        return const(min(a.a, b.a))
    if a is b:
        return a
    return T('min', (a, b))


def fn(name, *args):
    return T('fn', (name,) + tuple(lift(x) for x in args))


PI = var('pi')


def show(t, d=0):
    if t.op == 'const':
        return str(t.a)
    if t.op == 'var':
        return t.a
    if t.op == 'sel':
        return '%s[%s]' % (t.a[0], showsi(t.a[1]))
    if d > 8:
        return '...'
    if t.op == 'fn':
        return t.a[0] + '(' + ','.join(show(x, d + 1) for x in t.a[1:]) + ')'
    s = [show(x, d + 1) for x in t.a]
    if t.op == 'add':
        return '(' + s[0] + ' + ' + s[1] + ')'
    if t.op == 'mul':
        return s[0] + '*' + s[1]
    if t.op == 'div':
        return '(' + s[0] + ')/(' + s[1] + ')'
    if t.op == 'neg':
        return '-' + s[0]
    return t.op + '(' + ','.join(s) + ')'


def children(t):
    if t.op in ('const', 'var', 'sel'):
        return ()
    if t.op == 'fn':
        return t.a[1:]
    return t.a


def topo(roots):
    """post-order, iterative"""
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for c in children(t):
            if c.id not in seen:
                st.append((c, False))
    return out


def leaves(roots):
    return [t for t in topo(roots) if t.op in ('var', 'sel')]


# ---------------------------------------------------------------- symbolic ints
class SI:
    """affine integer  sum coef*var + const ; vars are strings"""
    __slots__ = ('c', 'k', 'key')

    def __init__(self, c, k):
        self.c = c          # dict var->coef (nonzero)
        self.k = k
        self.key = (tuple(sorted(c.items())), k)

    def __hash__(self): return hash(self.key)

    def __eq__(self, o):
        if isinstance(o, SI):
            return self.key == o.key
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, int):
            return SI(self.c, self.k + o)
        if isinstance(o, SI):
            c = dict(self.c)
            for v, q in o.c.items():
                q += c.get(v, 0)
                if q:
                    c[v] = q
                else:
                    c.pop(v, None)
            return mk(c, self.k + o.k)
        if isinstance(o, (T, Fraction)):
            return si2t(self) + o
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return SI({v: -q for v, q in self.c.items()}, -self.k)

    def __sub__(self, o):
        if isinstance(o, (T, Fraction)):
            return si2t(self) - o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return 0
            return SI({v: q * o for v, q in self.c.items()}, self.k * o)
        if isinstance(o, (T, Fraction)):
            return si2t(self) * o
        raise Unsupported('nonlinear symbolic integer product')
    __rmul__ = __mul__

    def __truediv__(self, o): return si2t(self) / o
    def __rtruediv__(self, o): return lift(o) / si2t(self)

    def __bool__(self): raise TypeError('symbolic int as truth value')
    def __index__(self): raise Unsupported('symbolic int where a concrete one is needed')
    def __repr__(self): return showsi(self)


def mk(c, k):
    return SI(c, k) if c else k


def ivar(name):
    return SI({name: 1}, 0)


def showsi(s):
    if isinstance(s, int):
        return str(s)
    r = '+'.join((v if q == 1 else '%d*%s' % (q, v)) for v, q in sorted(s.c.items()))
    if s.k:
        r += '%+d' % s.k
    return r


def si2t(s):
    r = const(s.k)
    for v, q in sorted(s.c.items()):
        r = r + const(q) * T('var', 'int!' + v)
    return r


def sel(arr, idx):
    """element idx of the symbolic real array arr"""
    return T('sel', (arr, idx))


# ---------------------------------------------------------------- booleans
class B:
    """boolean formula: ('lt',x,y) ('le',x,y) ('eq',x,y) over T or SI/int; 'and','or','not','true','false',
    'implies'"""
    __slots__ = ('op', 'a')

    def __init__(self, op, *a):
        self.op = op
        self.a = a

    def __and__(self, o): return band(self, o)
    def __or__(self, o): return bor(self, o)
    def __invert__(self): return bnot(self)

    def __bool__(self): raise TypeError('symbolic bool')

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.a)))


TRUE = B('true')
FALSE = B('false')


def lb(x):
    if isinstance(x, B):
        return x
    return TRUE if x else FALSE


def band(*xs):
    ys = []
    for x in xs:
        x = lb(x)
        if x.op == 'false':
            return FALSE
        if x.op == 'true':
            continue
        ys.append(x)
    return TRUE if not ys else ys[0] if len(ys) == 1 else B('and', *ys)


def bor(*xs):
    ys = []
    for x in xs:
        x = lb(x)
        if x.op == 'true':
            return TRUE
        if x.op == 'false':
            continue
        ys.append(x)
    return FALSE if not ys else ys[0] if len(ys) == 1 else B('or', *ys)


def bnot(x):
    x = lb(x)
    if x.op == 'true':
        return FALSE
    if x.op == 'false':
        return TRUE
    if x.op == 'not':
        return x.a[0]
    return B('not', x)


def _isint(x):
    return isinstance(x, (int, SI)) and not isinstance(x, bool)


def rel(op, x, y):
    """op in lt le eq; returns python bool when decided syntactically, else B"""
    if _isint(x) and _isint(y):
        d = x - y
        if isinstance(d, int):
            return d < 0 if op == 'lt' else d <= 0 if op == 'le' else d == 0
        return B(op, x, y)
    if not isinstance(x, T) and not isinstance(y, T) and not isinstance(x, SI) and not isinstance(y, SI):
        return x < y if op == 'lt' else x <= y if op == 'le' else x == y
    # infinities against symbolic reals
    for u, s in ((x, 1), (y, -1)):
        if isinstance(u, float) and math.isinf(u):
            if op == 'eq':
                return False
            v = u * s
            return v < 0
    x, y = lift(x), lift(y)
    if x is y:
        return op != 'lt'
    if isc(x) and isc(y):
        return x.a < y.a if op == 'lt' else x.a <= y.a if op == 'le' else x.a == y.a
    return B(op, x, y)


# ---------------------------------------------------------------- evaluation
class NonResidue(Exception):
    pass


class DivZero(Exception):
    pass


def eval_gf(roots, assign, p=P61, memo=None):
    """values of roots in GF(p); assign(leaf)->int; sqrt by principal root (arguments must be residues)"""
    memo = {} if memo is None else memo
    for t in topo_memo(roots, memo):
        op = t.op
        if op == 'const':
            v = t.a.numerator % p
            if t.a.denominator != 1:
                v = v * pow(t.a.denominator, -1, p) % p
        elif op == 'add':
            v = memo[t.a[0].id] + memo[t.a[1].id]
            if v >= p:
                v -= p
        elif op == 'mul':
            v = memo[t.a[0].id] * memo[t.a[1].id] % p
        elif op == 'neg':
            v = -memo[t.a[0].id] % p
        elif op == 'div':
            d = memo[t.a[1].id]
            if d == 0:
                raise DivZero(t)
            v = memo[t.a[0].id] * pow(d, -1, p) % p
        elif op == 'sqrt':
            x = memo[t.a[0].id]
            v = pow(x, (p + 1) // 4, p)
            if v * v % p != x:
                raise NonResidue(t)
        elif op in ('abs', 'max', 'min'):
            raise Unsupported('%s reached an identity' % op)
        else:
            v = assign(t)
        memo[t.id] = v
    return [memo[r.id] for r in roots]


def topo_memo(roots, memo):
    out = []; seen = set()
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t.id in seen or t.id in memo:
            continue
        seen.add(t.id)
        st.append((t, True))
        for c in children(t):
            if c.id not in seen and c.id not in memo:
                st.append((c, False))
    return out


_FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin,
       'atan': math.atan, 'atan2': math.atan2, 'log': math.log, 'exp': math.exp, 'pow': math.pow,
       'floor': math.floor, 'ceil': math.ceil}


def eval_mp(roots, assign, memo=None):
    """evaluation with 60 digits; assign(leaf) -> mpf.  ValueError outside the domain of a root, Unsupported for other leaves"""
    import mpmath
    mp = mpmath.mp
    memo = {} if memo is None else memo
    for t in topo_memo(roots, memo):
        op = t.op
        if op == 'const':
            v = mp.mpf(t.a.numerator) / t.a.denominator
        elif op == 'add':
            v = memo[t.a[0].id] + memo[t.a[1].id]
        elif op == 'mul':
            v = memo[t.a[0].id] * memo[t.a[1].id]
        elif op == 'neg':
            v = -memo[t.a[0].id]
        elif op == 'div':
            v = memo[t.a[0].id] / memo[t.a[1].id]
        elif op == 'sqrt':
            x = memo[t.a[0].id]
            if x < 0:
                if x < -mp.mpf(10) ** -45:
                    raise ValueError('root of a negative number')
                x = mp.mpf(0)
            v = mp.sqrt(x)
        elif op == 'abs':
            v = abs(memo[t.a[0].id])
        elif op == 'max':
            v = max(memo[t.a[0].id], memo[t.a[1].id])
        elif op == 'min':
            v = min(memo[t.a[0].id], memo[t.a[1].id])
        elif op == 'fn':
            if t.a[0] not in ('sin', 'cos', 'tan'):
                raise Unsupported('function ' + str(t.a[0]))
            v = getattr(mp, t.a[0])(memo[t.a[1].id])
        elif op == 'var' and t.a == 'pi':
            v = +mp.pi
        elif op == 'var':
            v = assign(t)
        else:
            raise Unsupported('leaf ' + op)
        memo[t.id] = v
    return [memo[r.id] for r in roots]


def eval_num(roots, assign, memo=None):
    """numeric (float or Fraction, as assign gives) evaluation"""
    memo = {} if memo is None else memo
    for t in topo_memo(roots, memo):
        op = t.op
        if op == 'const':
            v = t.a
        elif op == 'add':
            v = memo[t.a[0].id] + memo[t.a[1].id]
        elif op == 'mul':
            v = memo[t.a[0].id] * memo[t.a[1].id]
        elif op == 'neg':
            v = -memo[t.a[0].id]
        elif op == 'div':
            v = memo[t.a[0].id] / memo[t.a[1].id]
        elif op == 'sqrt':
            v = math.sqrt(memo[t.a[0].id])
        elif op == 'abs':
            v = abs(memo[t.a[0].id])
        elif op == 'max':
            v = max(memo[t.a[0].id], memo[t.a[1].id])
        elif op == 'min':
            v = min(memo[t.a[0].id], memo[t.a[1].id])
        elif op == 'fn':
            v = _FN[t.a[0]](*[float(memo[x.id]) for x in t.a[1:]])
        elif op == 'var' and t.a == 'pi':
            v = math.pi
        else:
            v = assign(t)
        memo[t.id] = v
    return [memo[r.id] for r in roots]
