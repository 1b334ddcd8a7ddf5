"""Contract execution environments.

A contract is a Python function body(E, case): it draws the inputs admitted by the precondition, calls the real
function(s) and states the postconditions.  Three environments run the same contract:
  SymEnv     every input symbolic; the function's AST is executed over exact reals on every feasible path and each
             postcondition becomes a proof obligation                                   (deductive)
  NatEnv     concrete floats, real compiled code                                        (replay / bounded search)
  BothEnv    concrete floats, interpreter in IEEE mode against the compiled code        (conformance of the extraction)"""
import math, random, time, traceback
from fractions import Fraction
from terms import *
from terms import _isint
from values import *
import interp as I
from interp import Interp, Ref
import solver
from solver import Ctx, explore, PathAbort, Infeasible, TooManySteps
from spec import KV

FLAT = {'XYZ': 3, 'XYZW': 4, 'UV': 2, 'UVW': 3, 'Matrix4d': 16}


class Skip(Exception):
    """the drawn concrete input does not satisfy the precondition"""


class Violated(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name + ': ' + detail)
        self.name = name
        self.detail = detail


class Res:
    __slots__ = ('ret', 'out', 'exc', 'this')

    def __init__(self, ret=None, out=(), exc=None, this=None):
        self.ret = ret
        self.out = list(out)
        self.exc = exc
        self.this = this


# ------------------------------------------------------------------ conversions for the interpreter
def flat_fill(v, vals):
    """fill the scalar slots of an aggregate in order"""
    import stdlib
    if isinstance(v, Obj):
        for k, x in v.f.items():
            if isinstance(x, (Obj, Vec)):
                flat_fill(x, vals)
            else:
                v.f[k] = next(vals)
    else:
        for i, x in enumerate(v.d):
            if isinstance(x, (Obj, Vec)):
                flat_fill(x, vals)
            else:
                v.d[i] = next(vals)


def flat_read(v, out):
    items = v.f.values() if isinstance(v, Obj) else v.d
    for x in items:
        if isinstance(x, (Obj, Vec)):
            flat_read(x, out)
        else:
            out.append(x)


_blank = {}


def to_cpp(ip, v, t):
    t = ip.canon(t)
    if t.endswith('*') or '(*)' in t:
        if '(*)' in t:
            et = t[:t.index('(')].strip()
            n = int(t[t.index('[') + 1:t.index(']')])
            return Ptr(Vec([Vec([ip.default(et) for _ in range(n)], et, True) for _ in range(2)], et, True), 0)
        if t == 'double *':
            return Ptr(Vec([UNINIT] * 16, 'double', True), 0)
    if v is None:
        return ip.default(t, True)
    if isinstance(v, tuple):
        o = ip.default(t, True)
        flat_fill(o, iter(v))
        return o
    if isinstance(v, list):
        if hasattr(v, 'symvec'):
            return v.symvec(ip, t)
        et = I.targs(t)[0]
        return Vec([to_cpp(ip, x, et) for x in v], et)
    if isinstance(v, dict):
        o = ip.default(t, True)
        for u, fd in ip.fields(t):
            if fd['name'] in v:
                o.f[fd['name']] = to_cpp(ip, v[fd['name']], I.ty(fd))
        return o
    if ip.mode == 'sym':
        if t in I.FLOATS and isinstance(v, (int, float)) and not isinstance(v, bool):
            if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
                return v
            return Fraction(v)
        if isinstance(v, T) and v.op == 'const':
            return v.a
    elif t in I.FLOATS:
        return float(v)
    return v


def from_cpp(v):
    if isinstance(v, Vec):
        if hasattr(v.d, 'sym_get'):
            return v.d
        return [from_cpp(x) for x in v.d]
    if isinstance(v, Obj):
        if v.cls in FLAT:
            o = []
            flat_read(v, o)
            return tuple(math.nan if isinstance(x, Uninit) else x for x in o)
        return {k: from_cpp(x) for k, x in v.f.items()}
    if isinstance(v, MapV):
        return [(from_cpp(a), from_cpp(b)) for a, b in zip(v.k, v.v)]
    if isinstance(v, Ptr):
        return from_cpp(v.v)
    if isinstance(v, Uninit):
        return math.nan
    return v


class Base:
    sym = False

    def __init__(self, prog):
        self.prog = prog

    clean = True        # result objects start out empty

    def resolve(self, name):
        """'Class::Fn' or 'Class::Fn|substring of its type' -> mangled name"""
        q, _, sig = name.partition('|')
        ms = self.prog.find(q, None)
        if sig:
            ms = [m for m in ms if sig in self.prog.defs[m][1]['type']['qualType'].replace('LNLib::', '').replace('std::', '')]
        if len(ms) != 1:
            raise Unsupported('function %s: %d candidates' % (name, len(ms)))
        return ms[0]

    # composite draws shared by all environments -------------------------------------------------
    def point(self, name, n=3):
        return tuple(self.real('%s.%s' % (name, 'xyzw'[k])) for k in range(n))

    def points(self, name, n, dim=3):
        return [self.point('%s%d' % (name, i), dim) for i in range(n)]

    def wpoint(self, name):
        """homogeneous point with positive weight"""
        return tuple(self.real('%s.%s' % (name, 'xyz'[k])) for k in range(3)) + (self.pos(name + '.w'),)

    def wpoints(self, name, n):
        return [self.wpoint('%s%d' % (name, i)) for i in range(n)]

    def net(self, name, n, m, dim=3):
        return [[self.point('%s%d_%d' % (name, i, j), dim) for j in range(m)] for i in range(n)]

    def wnet(self, name, n, m):
        return [[self.wpoint('%s%d_%d' % (name, i, j)) for j in range(m)] for i in range(n)]

    def wgrid(self, name, n, m, l):
        return [[[self.wpoint('%s%d_%d_%d' % (name, i, j, k)) for k in range(l)] for j in range(m)] for i in range(n)]

    def knotvec(self, name, mults, extra=()):
        """knot vector with the given multiplicities of its distinct knots; extra: positions of additional chain values:
        ('span', s) between distinct knots s and s+1 (several per span allowed, increasing), ('knot', k) equal to knot k.
        returns KV, list of extra values, list of their ranks.  Ranks: knot k has rank 100*k."""
        n = len(mults)
        order = []          # (rank, label)
        for k in range(n):
            order.append((100 * k, '%s%d' % (name, k)))
        cnt = {}
        ex = []
        for e in extra:
            if e[0] == 'span':
                c = cnt[e[1]] = cnt.get(e[1], 0) + 1
                rk = 100 * e[1] + c
                order.append((rk, '%s.p%d_%d' % (name, e[1], c)))
                ex.append(rk)
            else:
                ex.append(100 * e[1])
        order.sort()
        vals = self.chain([x[1] for x in order])
        val = {rk: v for (rk, _), v in zip(order, vals)}
        kv = KV([val[100 * k] for k in range(n) for _ in range(mults[k])], [100 * k for k in range(n) for _ in range(mults[k])])
        return kv, [val[r] for r in ex], ex

    def call(self, name, *args, this=None):
        raise NotImplementedError

    def ok(self, name, *args, **kw):
        """call that must return normally"""
        r = self.call(name, *args, **kw)
        if r.exc:
            self.fail('%s returns normally on valid arguments' % name.split('|')[0], 'threw ' + r.exc)
        return r

    def eq(self, name, a, b, tol=None):
        if isinstance(b, dict):
            for k in b:
                self.eq(name + '.' + k, a[k], b[k], tol)
            return
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
                self.fail(name, 'length %s, expected %s' % (len(a) if isinstance(a, (list, tuple)) else '-', len(b) if isinstance(b, (list, tuple)) else '-'))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq('%s[%d]' % (name, i), x, y, tol)
            return
        self.eq1(name, a, b, tol)


def guard_index(f):
    return f


class SymEnv(Base):
    sym = True

    def __init__(self, prog, ip, ctx, summaries):
        Base.__init__(self, prog)
        self.ip = ip
        self.ctx = ctx
        ip.ctx = ctx
        ip.steps = 0
        ip.depth = 0
        ip.where = []
        ip.div_done = set()
        ip.globals_reset = None
        self.draws = []
        self.log = []

    def real(self, name, lo=-3.0, hi=3.0):
        v = var(name)
        self.draws.append((name, v))
        return v

    free = real

    def pos(self, name, lo=0.3, hi=3.0):
        v = var(name)
        self.draws.append((name, v))
        self.ctx.assume(B('lt', ZERO, v))
        self.ctx.positive.add(name)
        return v

    def between(self, name, lo, hi, closed=False):
        v = var(name)
        self.draws.append((name, v))
        op = 'le' if closed else 'lt'
        self.ctx.assume(B(op, lift(lo), v))
        self.ctx.assume(B(op, v, lift(hi)))
        return v

    def chain(self, items):
        """strictly increasing values, pairwise separated beyond the comparison tolerance; items are names or constants"""
        ts = []
        for x in items:
            if isinstance(x, str):
                v = var(x)
                self.draws.append((x, v))
            else:
                v = lift(x)
            ts.append(v)
        self.ctx.add_chain(ts)
        return ts

    def interior(self, name, lo, hi):
        """a formal point of the open interval (identities only)"""
        v = var(name)
        self.draws.append((name, v))
        self.ctx.formal.append((v, lo, hi))
        return v

    def assume(self, b):
        if isinstance(b, bool):
            if not b:
                raise Infeasible()
            return
        self.ctx.assume(b)

    def gt0(self, x):
        """strictly positive (concretely: by a clear margin)"""
        return rel('lt', ZERO, lift(x))

    def alias(self, x):
        """lemma: comparisons of a term identically equal to x are comparisons of x"""
        self.ctx.__dict__.setdefault('aliases', []).append(lift(x))

    def root(self, r):
        """lemma: r >= 0 (shown by the sign prover), hence the square root of every term identically equal to r*r is r"""
        r = lift(r)
        if self.ip.sign(r) in ('+', '0+'):
            self.ctx.__dict__.setdefault('roots', []).append(r)

    def hint(self, x):
        """lemma: x has a sign the prover sees; every term identically equal to x then has it too"""
        x = lift(x)
        s = self.ip.sign(x)
        if s in ('+', '-', '0+', '0-'):
            self.ctx.__dict__.setdefault('hints', []).append((x, s))
            if self.ctx.pos is not None:
                self.ctx.pos.memo = {k: v for k, v in self.ctx.pos.memo.items() if v is not None}
        return s

    angle = real

    def choose(self, b):
        return self.ctx.decide(b) if not isinstance(b, bool) else b

    def call(self, name, *args, this=None):
        m = self.resolve(name)
        f = self.ip.fn(m)
        a2 = []
        outs = []
        pts = [I.ty(c) for c in f.node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for (slot, kind), t, a in zip(f.params, pts, args):
            v = to_cpp(self.ip, a, t)
            st = t.strip()
            isout = st.endswith('&') and not st.startswith('const ') or st.endswith('*') or '(*)' in st
            if kind == 'sref':
                v = [v]
                if isout:
                    outs.append(v)
                a2.append(Ref((v, 0)))
                continue
            if isout:
                outs.append(v)
            a2.append(v)
        th = to_cpp(self.ip, this, name.split('::')[0]) if this is not None else None
        try:
            if f.node['kind'] == 'CXXConstructorDecl':
                r = self.ip.construct(name.split('::')[0], f.node['type']['qualType'], a2)
            else:
                r = self.ip.call(f, a2, th)
        except CppThrow as e:
            self.ip.depth = 0
            self.ip.where = []
            return Res(exc=e.ty)
        except CppUB as e:
            self.ip.depth = 0
            self.ctx.flush()
            self.ctx.fail('defined behaviour of %s' % name.split('|')[0], e.what)
            raise PathAbort()
        except ZeroDivisionError:
            self.ip.depth = 0
            self.ctx.flush()
            self.ctx.fail('defined behaviour of %s' % name.split('|')[0], 'division by zero in ' + '/'.join(self.ip.where[-3:]))
            raise PathAbort()
        if isinstance(r, Ref):
            r = r[0][r[1]]
        return Res(from_cpp(r), [o[0] if isinstance(o, list) else from_cpp(o) for o in outs], None,
                   from_cpp(th) if th is not None else None)

    def eq1(self, name, a, b, tol):
        if isinstance(a, float) and (math.isnan(a) or math.isinf(a)):
            self.ctx.fail(name, 'not finite / never assigned')
            return
        self.ctx.defer_eq(name, a, b)

    def le(self, name, a, b, tol=None):
        self.ctx.prove(name, rel('le', a, b))

    def lt(self, name, a, b, tol=None):
        self.ctx.prove(name, rel('lt', a, b))

    def check(self, name, b):
        self.ctx.prove(name, b if isinstance(b, (bool, B)) else bool(b))

    def iff(self, name, res, op, a, b):
        """boolean result res  <=>  a op b   (op: le, lt)"""
        c = rel(op, lift(a), lift(b))
        if res not in (True, False):
            self.fail(name, 'result is not a boolean: %r' % (res,))
        self.ctx.prove(name, c if res else (bnot(c) if isinstance(c, B) else not c))

    def iffall(self, name, res, rels):
        """res <=> conjunction of (op, a, b)"""
        if res:
            for op, a, b in rels:
                self.ctx.prove(name, rel(op, lift(a), lift(b)))
        else:
            cs = [rel(op, lift(a), lift(b)) for op, a, b in rels]
            if any(c is False for c in cs):
                self.ctx.prove(name, True)
                return
            cs = [bnot(c) for c in cs if isinstance(c, B)]
            if not cs:
                self.ctx.fail(name, 'result false although every condition holds')
                return
            o = cs[0]
            for c in cs[1:]:
                o = bor(o, c)
            self.ctx.prove(name, o)

    def same_int(self, name, a, b):
        self.ctx.prove(name, rel('eq', a, b))

    def fail(self, name, detail=''):
        self.ctx.flush()
        self.ctx.fail(name, detail)
        raise PathAbort()

    def sqrt(self, x): return sqrt_(x)
    def abs(self, x): return abs_(lift(x))
    def max(self, a, b): return max_(lift(a), lift(b))
    def min(self, a, b): return -max_(-lift(a), -lift(b))
    def sin(self, x):
        import stdlib
        return stdlib.fnv(self.ip, 'sin', x)

    def cos(self, x):
        import stdlib
        return stdlib.fnv(self.ip, 'cos', x)
    pi = PI


_JK = [-5.0, -5.0, -5.0, 1.0, 7.0, 7.0, 7.0]
_JP = [(11.0 + i, -7.0, 5.0 * i, 2.0) for i in range(4)]
DIRTY = {
    'LN_NurbsCurve&': {'Degree': 2, 'KnotVector': _JK, 'ControlPoints': _JP},
    'LN_NurbsSurface&': {'DegreeU': 2, 'DegreeV': 2, 'KnotVectorU': _JK, 'KnotVectorV': _JK, 'ControlPoints': [_JP] * 4},
    'LN_NurbsVolume&': {'DegreeU': 2, 'DegreeV': 2, 'DegreeW': 2, 'KnotVectorU': _JK, 'KnotVectorV': _JK, 'KnotVectorW': _JK, 'ControlPoints': [[_JP] * 4] * 4},
}


class NatEnv(Base):
    """concrete inputs on the compiled code"""

    def __init__(self, prog, proc, rng, fixed=None, lits=()):
        Base.__init__(self, prog)
        self.proc = proc
        self.rng = rng
        self.fixed = fixed
        self.draws = {}
        self.calls = 0
        self.trace = []
        self.lits = [v for v in lits if abs(v) <= 25]      # larger magnitudes only measure the library's absolute tolerances
        self.seen = {}
        self.numeric = None

    @property
    def clean(self):
        return not self.draws.get('dirty')

    def dirtied(self, m, args):
        """result objects that still hold an earlier result, in a third of the runs: what a function returns must not depend on it"""
        ts = [c['type']['qualType'].replace('LNLib::', '').replace(' ', '') for c in self.prog.defs[m][1].get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        if not any(x is None and t in DIRTY for x, t in zip(args, ts)):
            return args
        if not self._get('dirty', lambda: 1.0 if self.fixed is None and self.rng.random() < 0.34 else 0.0):
            return args
        return [DIRTY.get(t) if x is None else x for x, t in zip(args, ts)] + list(args[len(ts):])

    def _get(self, name, gen):
        if name in self.draws:
            return self.draws[name]
        v = None
        if self.fixed is not None:
            v = self.fixed.get(name)
        if v is None:
            v = gen()
        v = float(v)
        self.draws[name] = v
        return v

    def real(self, name, lo=-3.0, hi=3.0):
        def g():
            r = self.rng.random()
            if r < 0.12:
                return float(self.rng.choice((0, 1, -1, 2, 0.5)))
            if r < 0.2 and self.lits:
                return float(self.rng.choice(self.lits))
            return self.rng.uniform(lo, hi)
        return self._get(name, g)

    free = real

    def pos(self, name, lo=0.3, hi=3.0):
        return self._get(name, lambda: 1.0 if self.rng.random() < 0.15 else self.rng.uniform(lo, hi))

    def between(self, name, lo, hi, closed=False):
        v = self._get(name, lambda: self.rng.uniform(float(lo), float(hi)))
        if not (lo <= v <= hi):
            raise Skip()
        return v

    def chain(self, items):
        rng = self.rng
        if self.fixed is not None and all((not isinstance(x, str)) or x in self.fixed for x in items):
            vs = [self._get(x, None) if isinstance(x, str) else float(x) for x in items]
            for a, b in zip(vs, vs[1:]):
                if not b - a > 3e-6 * (1 + max(abs(a), abs(b))):
                    raise Skip()
            return vs
        anchors = [(i, float(x)) for i, x in enumerate(items) if not isinstance(x, str)]
        n = len(items)
        if not anchors:
            mode = rng.random()
            lo = 0.0 if mode < 0.5 else rng.uniform(-4, 4)
            if mode < 0.25:
                vals = [lo + i / max(1, n - 1) for i in range(n)]
            elif mode < 0.4:
                vals = [float(i) for i in range(n)]
            else:
                vals = [lo]
                for _ in range(n - 1):
                    vals.append(vals[-1] + rng.choice((0.15, 0.5, 1.0, rng.uniform(0.1, 1.5))))
        else:
            vals = [None] * n
            for i, a in anchors:
                vals[i] = a
            i = 0
            while i < n:
                if vals[i] is None:
                    j = i
                    while j < n and vals[j] is None:
                        j += 1
                    if i == 0:
                        for k in range(j - 1, -1, -1):
                            vals[k] = vals[k + 1] - rng.uniform(0.2, 1)
                    elif j == n:
                        for k in range(i, n):
                            vals[k] = vals[k - 1] + rng.uniform(0.2, 1)
                    else:
                        a, b = vals[i - 1], vals[j]
                        fr = sorted(rng.uniform(0.05, 0.95) for _ in range(j - i))
                        m = j - i
                        fr = [(k + 1 + rng.uniform(-0.35, 0.35)) / (m + 1) for k in range(m)]
                        for k in range(m):
                            vals[i + k] = a + (b - a) * fr[k]
                    i = j
                else:
                    i += 1
        for x, v in zip(items, vals):
            if isinstance(x, str):
                self.draws[x] = v
        return vals

    def interior(self, name, lo, hi):
        return self._get(name, lambda: lo + (hi - lo) * self.rng.uniform(0.05, 0.95))

    def assume(self, b):
        if not b:
            raise Skip()

    def gt0(self, x):
        return x > 1e-4

    def hint(self, x):
        return None

    alias = hint
    root = hint

    def angle(self, name):
        return self._get(name, lambda: self.rng.choice((self.rng.uniform(-7, 7), math.pi / 2, math.pi, -math.pi / 3, 0.3)))

    def choose(self, b):
        return bool(b)

    def call(self, name, *args, this=None):
        m = self.resolve(name)
        self.calls += 1
        if any(x is None for x in args):
            args = self.dirtied(m, args)
        a = ([this] if this is not None else []) + list(args)
        r = self.proc.call(m, [plain(x) for x in a])
        if len(self.trace) < 12:
            self.trace.append((name, a, r))
        if r[0] == 'ok':
            return Res(r[1], r[2], None, r[3])
        if r[0] == 'exc':
            return Res(exc=r[1])
        if r[0] == 'nofn':
            raise Unsupported('no native entry for ' + name)
        raise Violated('defined behaviour of %s' % name.split('|')[0], 'native run ended with ' + r[1])

    def eq1(self, name, a, b, tol):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            if a != b:
                raise Violated(name, 'got %r, expected %r' % (a, b))
            return
        try:
            a = float(a)
            b = float(b)
        except OverflowError:
            raise Skip()
        tol = tol or 1e-6
        if math.isnan(b) or math.isinf(b):
            raise Skip()
        if self.judge(name, a - b, tol * (1 + abs(b))):
            raise Violated(name, 'got %r, expected %r' % (a, b))

    def le(self, name, a, b, tol=None):
        tol = 1e-9 if tol is None else tol
        if a != b and self.judge(name, a - b, tol * (1 + abs(b)), True):
            raise Violated(name, '%r <= %r does not hold' % (a, b))

    def lt(self, name, a, b, tol=None):
        if self.judge(name, a - b, 0.0, True, True):
            raise Violated(name, '%r < %r does not hold' % (a, b))

    def judge(self, name, diff, bound, oneside=False, strict=False):
        """numeric obligation: True when violated; remembers which one, so that noisy() can measure it again"""
        k = self.seen[name] = self.seen.get(name, 0) + 1
        d = diff if oneside else abs(diff)
        if d < bound or (d == bound and not strict):
            return False
        self.numeric = (name, k, float(diff), float(bound))
        return True

    def check(self, name, b):
        if not b:
            raise Violated(name, 'does not hold')

    def iff(self, name, res, op, a, b):
        self.iffall(name, res, [(op, a, b)])

    def iffall(self, name, res, rels):
        val = True
        for op, a, b in rels:
            if abs(a - b) <= 1e-13 + 1e-9 * max(abs(a), abs(b)):
                raise Skip()
            val = val and a < b
        if bool(res) != val:
            raise Violated(name, 'got %r where %s' % (res, ' and '.join('%r %s %r' % (a, op, b) for op, a, b in rels)))

    def same_int(self, name, a, b):
        if a != b:
            raise Violated(name, 'got %r, expected %r' % (a, b))

    def fail(self, name, detail=''):
        raise Violated(name, detail)

    abs = staticmethod(abs)
    max = staticmethod(max)
    min = staticmethod(min)
    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else math.nan)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    pi = math.pi


def plain(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


class ProbeEnv(NatEnv):
    """re-run that only records the difference at one numeric obligation"""

    def judge(self, name, diff, bound, oneside=False, strict=False):
        k = self.seen[name] = self.seen.get(name, 0) + 1
        if (name, k) == self.target:
            self.value = float(diff)
            raise Skip()
        return False


def noisy(prog, proc, contract, case, rng, E, lits):
    """A numeric mismatch that rounding alone explains: when every input moves by a few units in the last place (equal inputs
    move alike), the difference at the failed obligation scatters by as much as its own size.  A wrong result is a smooth
    function of the inputs there and keeps its difference."""
    if E.numeric is None:
        return False
    name, k, d0, bound = E.numeric
    if not abs(d0) <= 1e3 * max(bound, 1e-9):
        return False
    got = []
    for n in range(6):
        moved = {}
        for v in sorted(set(E.draws.values())):
            special = v * 64 == round(v * 64) or v * 1000 == round(v * 1000)
            moved[v] = v if special else v * (1 + rng.choice((-6, -4, -2, 2, 4, 6)) * 2.3e-16)
        P = ProbeEnv(prog, proc, rng, {x: moved[v] for x, v in E.draws.items()}, lits)
        P.target, P.value = (name, k), None
        try:
            contract.body(P, case)
        except (Skip, Violated, ZeroDivisionError, OverflowError):
            pass
        if P.value is not None and math.isfinite(P.value):
            got.append(P.value)
    return len(got) >= 3 and max(got) - min(got) >= 0.1 * abs(d0)


class BothEnv(NatEnv):
    """interpreter in IEEE mode against the compiled code"""

    def __init__(self, prog, proc, rng, ip):
        NatEnv.__init__(self, prog, proc, rng)
        self.ip = ip
        self.compared = 0
        self.mismatch = []

    def call(self, name, *args, this=None):
        r = NatEnv.call(self, name, *args, this=this)
        try:
            s = SymEnv.__new__(SymEnv)
            s.prog, s.ip, s.ctx = self.prog, self.ip, None
            self.ip.ctx = None
            self.ip.steps = 0; self.ip.depth = 0; self.ip.where = []
            try:
                q = SymEnv.call(s, name, *args, this=this)
            except AttributeError as e:
                if "'NoneType' object has no attribute 'flush'" in str(e):
                    self.mismatch.append((name, 'interpreter: undefined behaviour'))
                    return r
                raise
        except Unsupported:
            return r
        self.compared += 1
        d = differs(r.exc or [r.ret, r.out], q.exc or [q.ret, q.out])
        if d:
            self.mismatch.append((name, d))
        return r


def differs(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else 'exception %r / %r' % (a, b)
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return 'kind'
        for k in a:
            if k in b:
                d = differs(a[k], b[k])
                if d:
                    return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return 'length %r / %r' % (len(a), len(b) if isinstance(b, (list, tuple)) else b)
        for x, y in zip(a, b):
            d = differs(x, y)
            if d:
                return d
        return None
    if a is None:
        return None
    try:
        x, y = float(a), float(b)
    except TypeError:
        return 'kind %r / %r' % (a, b)
    if math.isnan(x) or math.isnan(y):
        return None if math.isnan(y) else 'nan'
    if abs(x - y) <= 1e-7 * (1 + abs(x)) or x == y:
        return None
    return '%r / %r' % (a, b)


class Outcome:
    """result of verifying one contract on one case"""

    def __init__(self):
        self.obl = {}            # backend -> count discharged
        self.failed = []         # dicts
        self.unknown = []
        self.unsupported = None
        self.paths = 0
        self.time = 0.0
        self.ztime = 0.0
        self.fns = set()
        self.samples = []

    def total(self):
        return sum(self.obl.values())


def verify_case(prog, ip, contract, case, budget=60.0, max_paths=300, seed=1):
    """symbolic verification of one case: every feasible path"""
    o = Outcome()
    t0 = time.time()
    rng = random.Random(seed)
    ip.calls = {}
    cur = {}

    def run(ctx):
        E = SymEnv(prog, ip, ctx, None)
        cur['E'] = E
        ctx.E = E
        ctx.deadline = t0 + budget
        contract.body(E, case)
        ctx.flush()

    try:
        for ctx in explore(run, max_paths=max_paths, rng=rng):
            o.paths += 1
            if getattr(ctx, 'infeasible', False):
                continue
            o.ztime += ctx.ztime
            for (name, st, be, det, tt) in ctx.obls:
                if st == 'ok':
                    o.obl[be] = o.obl.get(be, 0) + 1
                    if len(o.samples) < 2:
                        o.samples.append('%s [%s]' % (name, be))
                else:
                    rec = {'obligation': name, 'detail': det, 'backend': be, 'model': None}
                    if st == 'fail' and len(o.failed) < 6:
                        rec['models'] = ctx.models(4)
                        rec['path'] = [repr(f)[:120] for f in ctx.facts[-6:]]
                    (o.failed if st == 'fail' and not ctx.uncertain else o.unknown).append(rec)
            if time.time() - t0 > budget:
                raise TooManySteps('time budget')
    except (Unsupported, TooManySteps) as e:
        o.unsupported = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        o.unsupported = 'recursion depth'
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError, AssertionError, OverflowError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        o.unsupported = '%s: %s @ %s' % (type(e).__name__, e, ' < '.join('%s:%d' % (x.filename.split('/')[-1], x.lineno) for x in reversed(tb)))
    o.fns = set(ip.calls)
    o.time = time.time() - t0
    return o


def native_case(prog, proc, contract, case, rng, fixed=None, lits=()):
    """one concrete run; returns None if fine/skipped, or a violation record"""
    E = NatEnv(prog, proc, rng, fixed, lits)
    try:
        contract.body(E, case)
    except Skip:
        return 'skip'
    except Violated as v:
        if noisy(prog, proc, contract, case, rng, E, lits):
            return 'skip'
        return {'obligation': v.name, 'detail': v.detail, 'draws': dict(E.draws), 'case': case,
                'contract': contract.name, 'calls': [(n, a, r) for n, a, r in E.trace]}
    except (ZeroDivisionError, OverflowError):
        return 'skip'
    return None
