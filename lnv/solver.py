"""Obligations and their discharge: z3 for path feasibility and inequalities, exact/PIT
normalisation for equalities of real-valued terms."""
import time, random
from fractions import Fraction
import z3
from terms import *
import terms

_z = {}            # T.id -> z3 expr
_side = {}         # T.id -> list of z3 side constraints introduced by that term (not children)
_fun = {}


def z_int(s):
    if isinstance(s, int):
        return z3.IntVal(s)
    r = None
    for v, q in sorted(s.c.items()):
        x = z3.Int(v)
        e = x if q == 1 else q * x
        r = e if r is None else r + e
    return r + s.k if s.k else r


def zt(t):
    e = _z.get(t.id)
    if e is not None:
        return e
    for u in topo_memo([t], _z):
        op = u.op
        A = [_z[c.id] for c in children(u)]
        if op == 'const':
            e = z3.RealVal(u.a)
        elif op == 'var':
            if u.a.startswith('int!'):
                e = z3.ToReal(z3.Int(u.a[4:]))
            else:
                e = z3.Real(u.a)
                if u.a == 'pi':
                    _side[u.id] = [e > z3.RealVal('3.14159265358979'), e < z3.RealVal('3.1415926535898')]
        elif op == 'sel':
            f = _fun.get(u.a[0])
            if f is None:
                f = _fun[u.a[0]] = z3.Function(u.a[0], z3.IntSort(), z3.RealSort())
            e = f(z_int(u.a[1]))
        elif op == 'add':
            e = A[0] + A[1]
        elif op == 'mul':
            e = A[0] * A[1]
        elif op == 'neg':
            e = -A[0]
        elif op == 'div':
            e = A[0] / A[1]
        elif op == 'sqrt':
            e = z3.Real('sqrt!%d' % u.id)
            _side[u.id] = [e >= 0, e * e == A[0]]
        elif op == 'abs':
            e = z3.If(A[0] >= 0, A[0], -A[0])
        elif op == 'max':
            e = z3.If(A[0] >= A[1], A[0], A[1])
        elif op == 'min':
            e = z3.If(A[0] <= A[1], A[0], A[1])
        elif op == 'fn':
            e = z3.Real('fn!%d' % u.id)
            nm = u.a[0]
            if nm in ('sin', 'cos'):
                o = z3.Real('fn!%d' % terms.fn('cos' if nm == 'sin' else 'sin', u.a[1]).id)
                _side[u.id] = [e * e + o * o == 1, e <= 1, e >= -1]
            elif nm == 'acos':
                _side[u.id] = [e >= 0, e <= z3.RealVal('3.1415926535898')]
        else:
            raise Unsupported(op)
        _z[u.id] = e
    return _z[t.id]


def zside(ts, seen):
    """side constraints of the terms not yet in seen"""
    out = []
    for u in topo_memo(ts, seen):
        seen[u.id] = True
        out += _side.get(u.id, ())
    return out


def batoms(b, acc):
    if b.op in ('lt', 'le', 'eq'):
        for x in b.a:
            if isinstance(x, T):
                acc.append(x)
    else:
        for x in b.a:
            batoms(x, acc)


def zb(b):
    op = b.op
    if op == 'true':
        return z3.BoolVal(True)
    if op == 'false':
        return z3.BoolVal(False)
    if op in ('lt', 'le', 'eq'):
        x, y = b.a
        if not isinstance(x, T):
            x, y = z_int(x), z_int(y)
        else:
            x, y = zt(x), zt(y)
        return x < y if op == 'lt' else x <= y if op == 'le' else x == y
    A = [zb(x) for x in b.a]
    if op == 'and':
        return z3.And(*A)
    if op == 'or':
        return z3.Or(*A)
    if op == 'not':
        return z3.Not(A[0])
    if op == 'implies':
        return z3.Implies(A[0], A[1])
    raise Unsupported(op)


# ------------------------------------------------------------------ PIT
def angle_lin(t):
    """t as {base T.id or 'pi': coef}, const ; linear in its non-linear-closed subterms"""
    out = {}

    def go(u, q):
        if u.op == 'const':
            out[None] = out.get(None, 0) + q * u.a
        elif u.op == 'add':
            go(u.a[0], q); go(u.a[1], q)
        elif u.op == 'neg':
            go(u.a[0], -q)
        elif u.op == 'mul' and u.a[0].op == 'const':
            go(u.a[1], q * u.a[0].a)
        elif u.op == 'div' and u.a[1].op == 'const':
            go(u.a[0], q / u.a[1].a)
        else:
            k = 'pi' if (u.op == 'var' and u.a == 'pi') else u
            out[k] = out.get(k, 0) + q
    go(t, Fraction(1))
    return {k: v for k, v in out.items() if v != 0}


LIN = {}        # id of a variable -> (LinSys, row, column): solution of a linear system at the evaluation point


class LinSys:
    def __init__(self, A, B):
        self.A, self.B = A, B


def gf_rank(M, p):
    M = [list(r) for r in M]
    n, rk = len(M), 0
    for col in range(len(M[0])):
        piv = next((i for i in range(rk, n) if M[i][col] % p), None)
        if piv is None:
            continue
        M[rk], M[piv] = M[piv], M[rk]
        inv = pow(M[rk][col], -1, p)
        for i in range(rk + 1, n):
            f = M[i][col] * inv % p
            if f:
                M[i] = [(a - f * b) % p for a, b in zip(M[i], M[rk])]
        rk += 1
    return rk


def gf_solve(A, B, p):
    n = len(A)
    M = [list(a) + list(b) for a, b in zip(A, B)]
    for col in range(n):
        piv = next((i for i in range(col, n) if M[i][col] % p), None)
        if piv is None:
            raise DivZero()
        M[col], M[piv] = M[piv], M[col]
        inv = pow(M[col][col], -1, p)
        M[col] = [x * inv % p for x in M[col]]
        for i in range(n):
            f = M[i][col]
            if i != col and f:
                M[i] = [(a - f * b) % p for a, b in zip(M[i], M[col])]
    return [r[n:] for r in M]


class Gf:
    """one random evaluation point in GF(p), consistent for the whole point"""

    def __init__(self, rng, p=P61, positive=(), angles=None):
        self.rng = rng
        self.p = p
        self.val = {}
        self.trig = {}
        self.memo = {}
        self.positive = positive
        self.denoms = angles or {}

    def assign(self, t):
        if t.op == 'fn':
            nm = t.a[0]
            if nm in ('sin', 'cos'):
                c, s = self.cs(t.a[1])
                return c if nm == 'cos' else s
            if nm == 'tan':
                c, s = self.cs(t.a[1])
                return s * pow(c, -1, self.p) % self.p
            # uninterpreted: a fresh value per argument VALUE (congruence)
            k = (nm,) + tuple(self.memo[x.id] for x in t.a[1:])
            if k not in self.val:
                self.val[k] = self.rng.randrange(2, self.p - 1)
            return self.val[k]
        v = self.val.get(t.id)
        if v is None and t.id in LIN:
            S, i, j = LIN[t.id]
            X = self.val.get(('lin', id(S)))
            if X is None:
                n, m = len(S.A), len(S.B[0])
                fl = eval_gf([x for r in S.A for x in r] + [x for r in S.B for x in r], self.assign, memo=self.memo)
                X = self.val[('lin', id(S))] = gf_solve([fl[a * n:a * n + n] for a in range(n)], [fl[n * n + a * m:n * n + a * m + m] for a in range(n)], self.p)
            v = self.val[t.id] = X[i][j]
            return v
        if v is None:
            v = self.rng.randrange(2, self.p - 1)
            if t.op == 'var' and t.a in self.positive:
                v = v * v % self.p
            self.val[t.id] = v
        return v

    def base(self, k):
        """cos, sin of base angle k divided by its common denominator"""
        r = self.trig.get(k)
        if r is None:
            p = self.p
            while True:
                m = self.rng.randrange(2, p - 1)
                d = (1 + m * m) % p
                if d:
                    break
            i = pow(d, -1, p)
            r = self.trig[k] = ((1 - m * m) * i % p, 2 * m * i % p)
        return r

    def cs(self, t):
        p = self.p
        lin = angle_lin(t)
        c, s = 1, 0
        for k, q in lin.items():
            if k is None:
                raise Unsupported('trig of a constant offset')
            if k == 'pi':
                h = q * 2
                if h.denominator != 1:
                    raise Unsupported('trig of a fraction of pi')
                cc, ss = [(1, 0), (0, 1), (p - 1, 0), (0, p - 1)][int(h) % 4]
            else:
                D = self.denoms.get(k, 1)
                n = q * D
                if n.denominator != 1:
                    raise Unsupported('angle denominator')
                n = int(n)
                b = self.base(k)
                if n < 0:
                    b = (b[0], -b[1] % p); n = -n
                cc, ss = 1, 0
                for _ in range(n):
                    cc, ss = (cc * b[0] - ss * b[1]) % p, (ss * b[0] + cc * b[1]) % p
            c, s = (c * cc - s * ss) % p, (s * cc + c * ss) % p
        return c, s


def angle_denoms(roots):
    den = {}
    for u in topo(roots):
        if u.op == 'fn' and u.a[0] in ('sin', 'cos', 'tan'):
            for k, q in angle_lin(u.a[1]).items():
                if k is not None and k != 'pi':
                    d = q.denominator
                    o = den.get(k, 1)
                    import math as _m
                    den[k] = o * d // _m.gcd(o, d)
    return den


_hs = {}


def has_sqrt(t):
    """does the term contain a square root?"""
    r = _hs.get(t.id)
    if r is None:
        st = [t]
        seen = set()
        r = False
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'sqrt' or (x.op == 'fn' and x.a and x.a[0] == 'sqrt'):
                r = True
                break
            for y in (x.a if isinstance(x.a, tuple) else ()):
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.extend(z for z in y if isinstance(z, T))
        _hs[t.id] = r
    return r


def pit_zero(d, rng, positive=(), points=2):
    """True if d is identically zero (error <= deg/2^61 per point), False if not, None if undecidable here"""
    den = angle_denoms([d])
    ok = 0
    tries = 0
    while ok < points:
        tries += 1
        if tries > 400:
            return None
        g = Gf(rng, positive=positive, angles=den)
        try:
            v = eval_gf([d], g.assign, memo=g.memo)[0]
        except NonResidue:
            continue
        except DivZero:
            if tries > 8:
                return None
            continue
        except Unsupported:
            return None
        if v != 0:
            return False
        ok += 1
    return True


def expand_exact(d, limit=4000):
    """exact normal form over Q for division-free small terms: dict monomial->coef, or None if too large"""
    memo = {}
    for u in topo([d]):
        if u.op == 'const':
            r = {(): u.a} if u.a else {}
        elif u.op in ('var', 'sel'):
            r = {((u.id, 1),): Fraction(1)}
        elif u.op == 'add':
            a, b = memo[u.a[0].id], memo[u.a[1].id]
            if len(a) < len(b):
                a, b = b, a
            r = dict(a)
            for k, v in b.items():
                q = r.get(k, 0) + v
                if q:
                    r[k] = q
                else:
                    r.pop(k, None)
        elif u.op == 'neg':
            r = {k: -v for k, v in memo[u.a[0].id].items()}
        elif u.op == 'mul':
            a, b = memo[u.a[0].id], memo[u.a[1].id]
            if len(a) * len(b) > limit * 4:
                return None
            r = {}
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    m = dict(k1)
                    for x, e in k2:
                        m[x] = m.get(x, 0) + e
                    k = tuple(sorted(m.items()))
                    q = r.get(k, 0) + v1 * v2
                    if q:
                        r[k] = q
                    else:
                        r.pop(k, None)
        else:
            return None
        if len(r) > limit:
            return None
        memo[u.id] = r
    return memo[d.id]


# ------------------------------------------------------------------ sign analysis
class Pos:
    """syntactic sign prover: '+', '0+' , '-', '0-' or None; leaves by z3 (linear)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def sign(self, t, depth=0):
        r = self.memo.get(t.id, 0)
        if r != 0:
            return r
        r = self._sign(t, depth)
        if r is None and depth < 6 and self.ctx.__dict__.get('hints') and t.op == 'add':
            r = self.hinted(t)
        self.memo[t.id] = r
        return r

    def hinted(self, t):
        """lemma from the contract: a term identically equal (PIT) to one of known sign"""
        for h, s in self.ctx.hints:
            if pit_zero(t - h, self.ctx.rng, self.ctx.positive):
                return s
        return None

    def _sign(self, t, depth):
        op = t.op
        if op == 'const':
            return '+' if t.a > 0 else '-' if t.a < 0 else '00'
        if depth > 400:
            return None
        if op == 'mul' or op == 'div':
            if op == 'mul' and t.a[0] is t.a[1]:
                s = self.sign(t.a[0], depth + 1)
                return '+' if s in ('+', '-') else '0+'
            a = self.sign(t.a[0], depth + 1)
            b = self.sign(t.a[1], depth + 1)
            if a and b:
                if op == 'div' and b not in ('+', '-'):
                    return None
                n = (a[-1] == '-') != (b[-1] == '-')
                strict = len(a) == 1 and len(b) == 1
                return ('-' if n else '+') if strict else ('0-' if n else '0+')
        if op == 'neg':
            a = self.sign(t.a[0], depth + 1)
            return {'+': '-', '-': '+', '0+': '0-', '0-': '0+', None: None, '00': '00'}[a]
        if op == 'sqrt':
            a = self.sign(t.a[0], depth + 1)
            return '+' if a == '+' else '0+'
        if op == 'abs':
            a = self.sign(t.a[0], depth + 1)
            return '+' if a in ('+', '-') else '0+'
        if op == 'add':
            if self.linear(t):
                r = self.lin(t)
                if r:
                    return r
            a = self.sign(t.a[0], depth + 1)
            b = self.sign(t.a[1], depth + 1)
            if a and b:
                if a == '00': return b
                if b == '00': return a
                if a[-1] == b[-1]:
                    return a if len(a) == 1 else b
            return None
        if op in ('var', 'sel'):
            return self.lin(t)
        return None

    def linear(self, t):
        for u in topo([t]):
            if u.op in ('const', 'var', 'sel', 'add', 'neg'):
                continue
            if u.op == 'mul' and u.a[0].op == 'const':
                continue
            return False
        return True

    def lin(self, t):
        c = self.ctx
        q = c.lin_sign(t)
        if q is not None:
            return q
        for u in leaves([t]):
            if u.op == 'var' and u.id not in c.cvars:
                return None             # a variable no assumption mentions: no sign
        if t.op == 'var' and t.a in c.positive:
            return '+'
        if c.lentails(zt(t) > 0):
            return '+'
        if c.lentails(zt(t) < 0):
            return '-'
        if c.lentails(zt(t) >= 0):
            return '0+'
        if c.lentails(zt(t) <= 0):
            return '0-'
        return None


# ------------------------------------------------------------------ path context
class PathAbort(Exception):
    pass


class Infeasible(Exception):
    pass


class TooManySteps(Exception):
    pass


def lin_form(t, limit=64):
    """{leaf: coef, None: const} or None"""
    out = {}
    st = [(t, Fraction(1))]
    n = 0
    while st:
        u, q = st.pop()
        n += 1
        if n > limit:
            return None
        op = u.op
        if op == 'const':
            out[None] = out.get(None, 0) + q * u.a
        elif op in ('var', 'sel'):
            out[u] = out.get(u, 0) + q
        elif op == 'add':
            st.append((u.a[0], q)); st.append((u.a[1], q))
        elif op == 'neg':
            st.append((u.a[0], -q))
        elif op == 'mul' and u.a[0].op == 'const':
            st.append((u.a[1], q * u.a[0].a))
        elif op == 'div' and u.a[1].op == 'const':
            st.append((u.a[0], q / u.a[1].a))
        else:
            return None
    return {k: v for k, v in out.items() if v != 0}


class Ctx:
    def __init__(self, prefix=(), rng=None, timeout=4000, positive=()):
        self.prefix = list(prefix)
        self.trace = []            # list of (side, other side open, side not known feasible, other side not known feasible)
        self.s = z3.Solver()
        self.timeout = timeout
        self.s.set('timeout', timeout)
        self.sseen = {}
        self.facts = []            # B list: assumptions + path
        self.model = None
        self.obls = []
        self.rng = rng or random.Random(12345)
        self.uncertain = False
        self.positive = set(positive)
        self.nz = 0
        self.ztime = 0.0
        self.memo = {}
        self.int_eq = {}
        self.pos = None
        self.hyps = []
        self.lemmas = None         # callback(ctx, list of T) -> list of B facts to add
        self.mono = {}             # sorted symbolic arrays: name -> list of index SI already seen
        self.trace_log = []
        self.chains = {}           # T.id -> {chain: rank}
        self.nchain = 0
        self.chain_of = {}
        self.formal = []
        self.pending = []
        self.deadline = None
        self.qmemo = {}
        self.sl = z3.Solver()      # the linear facts only
        self.sl.set('timeout', 1500)
        self.lmemo = {}
        self.lkeep = []
        self.cvars = set()         # variables some assumption mentions

    # -- separated increasing chains
    def add_chain(self, ts):
        c = self.nchain
        self.nchain += 1
        M = var('M!%d' % c)
        tol = const(Fraction(4, 10 ** 6))
        for k, t in enumerate(ts):
            self.chains.setdefault(t.id, {})[c] = k
            self.assume(band(B('le', t, M), B('le', neg(t), M)))
        for a, b in zip(ts, ts[1:]):
            if isc(a) and isc(b):
                assert a.a < b.a
                continue
            self.assume(B('lt', mul(tol, add(ONE, M)), sub(b, a)))
        self.chain_of[c] = list(ts)

    def alias(self, t):
        al = self.__dict__.get('aliases')
        if not al or t.op in ('const', 'var'):
            return t
        m = self.__dict__.setdefault('aliasmemo', {})
        if t.id not in m:
            m[t.id] = t
            for x in al:
                if x is t:
                    break
                if pit_zero(t - x, self.rng, self.positive):
                    m[t.id] = x
                    break
        return m[t.id]

    def chain_cmp(self, x, y):
        """-1/0/1 if both belong to one chain, else None"""
        if x is y:
            return 0
        a = self.chains.get(x.id)
        if not a:
            return None
        b = self.chains.get(y.id)
        if not b:
            return None
        for c, r in a.items():
            q = b.get(c)
            if q is not None:
                return (r > q) - (r < q)
        return None

    def lin_sign(self, d):
        """sign of a linear term over one chain by telescoping: '+','-','0+','0-','00' or None"""
        r = self.qmemo.get(d.id, 0)
        if r != 0:
            return r
        r = self._lin_sign(d)
        self.qmemo[d.id] = r
        return r

    def _lin_sign(self, d):
        if not self.chains:
            return None
        lf = lin_form(d)
        if lf is None:
            return None
        k = lf.pop(None, Fraction(0))
        if not lf:
            return '+' if k > 0 else '-' if k < 0 else '00'
        common = None
        for t in lf:
            s = self.chains.get(t.id)
            if not s:
                return None
            common = set(s) if common is None else common & set(s)
            if not common:
                return None
        for c in common:
            ts = self.chain_of[c]
            co = [Fraction(0)] * len(ts)
            for t, q in lf.items():
                co[self.chains[t.id][c]] += q
            if k != 0 or sum(co) != 0:
                # express the constant through chain constants
                cs = [(i, t.a) for i, t in enumerate(ts) if isc(t)]
                zero = [i for i, a in cs if a == 0]
                if not zero:
                    continue
                nz = [(i, a) for i, a in cs if a != 0]
                if k != 0:
                    if not nz:
                        continue
                    i, a = nz[-1]
                    co[i] += k / a
                co[zero[0]] -= sum(co)
            pre = Fraction(0)
            pos = neg_ = False
            for q in co[:-1]:
                pre += q
                if pre > 0:
                    neg_ = True
                elif pre < 0:
                    pos = True
            if pos and not neg_:
                return '+'
            if neg_ and not pos:
                return '-'
            if not pos and not neg_:
                return '00'
        return None

    def quick(self, b):
        """decide an atom by chain order; None if not applicable"""
        if b.op == 'not':
            r = self.quick(b.a[0])
            return None if r is None else not r
        if b.op not in ('lt', 'le', 'eq') or not isinstance(b.a[0], T):
            return None
        x, y = b.a
        s = self.chain_cmp(x, y)
        if s is None:
            r = self.lin_sign(sub(y, x))
            if r is None:
                return None
            if r == '+': s = -1
            elif r == '-': s = 1
            elif r == '00': s = 0
            else:
                return None
        return s < 0 if b.op == 'lt' else s <= 0 if b.op == 'le' else s == 0

    # -- deferred equalities: one shared evaluation
    def defer_eq(self, name, x, y):
        if not isinstance(x, (T, SI)) and not isinstance(y, (T, SI)):
            return self.prove_eq(name, x, y)
        if _isint(x) and _isint(y):
            return self.prove(name, rel('eq', x, y))
        try:
            x, y = lift(x), lift(y)
        except TypeError:
            self.fail(name, 'value %r, expected %r' % (x, y))
            return
        d = x - y
        if d is ZERO:
            self.oblig(name, 'ok', 'syntactic')
            return
        self.pending.append((name, d, x, y))

    def flush(self):
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        t0 = time.time()
        den = angle_denoms([d for _, d, _, _ in pend])
        alive = set(range(len(pend)))
        pts = 0
        tries = 0
        evaluated = False
        while pts < 2 and tries < 300:
            tries += 1
            g = Gf(self.rng, positive=self.positive, angles=den)
            try:
                vals = eval_gf([d for _, d, _, _ in pend], g.assign, memo=g.memo)
            except NonResidue:
                continue
            except DivZero:
                if tries > 8:
                    break
                continue
            except Unsupported:
                break
            pts += 1
            alive = {i for i in alive if vals[i] == 0}
        for i, (name, d, x, y) in enumerate(pend):
            if pts == 2 and i in alive and (not has_sqrt(d) or pit_zero(d, self.rng, self.positive, 6)):
                self.oblig(name, 'ok', 'pit', '', 0.0)
            else:
                self.prove_eq(name, x, y)

    def models(self, n):
        """a few assignments satisfying the path facts (floats), by variable name"""
        out = []
        E = getattr(self, 'E', None)
        names = [(nm, v) for nm, v in E.draws] if E is not None else []
        def conv(m):
            d = {}
            for nm, v in names:
                x = m.eval(zt(v), model_completion=False)
                try:
                    if z3.is_rational_value(x):
                        d[nm] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                    elif z3.is_algebraic_value(x):
                        d[nm] = float(x.approx(20).numerator_as_long()) / float(x.approx(20).denominator_as_long())
                except Exception:
                    pass
            return d
        if getattr(self, 'cex', None) is not None:
            try:
                out.append(conv(self.cex))
            except Exception:
                pass
        rng = random.Random(7)
        for k in range(n):
            s = z3.Solver()
            s.set('timeout', 1500)
            for a in self.s.assertions():
                s.add(a)
            for v, lo, hi in self.formal:
                if isinstance(lo, T) and isinstance(hi, T):
                    s.add(zt(v) > zt(lo), zt(v) < zt(hi))
            r = s.check()
            if r != z3.sat:
                break
            base = s.model()
            # randomise greedily
            order = list(names)
            rng.shuffle(order)
            t0 = time.time()
            for nm, v in order:
                if time.time() - t0 > 1.5:
                    break
                s.push()
                c = Fraction(rng.randrange(-300, 300), 100)
                w = Fraction(rng.choice((1, 10, 60)), 100)
                s.add(zt(v) > z3.RealVal(c - w), zt(v) < z3.RealVal(c + w))
                if s.check() == z3.sat:
                    base = s.model()
                else:
                    s.pop()
            out.append(conv(base))
        return out

    def holds_mp(self, b, assign, memo):
        """does the fact hold at the point?  (facts over auxiliary variables are taken from the solver)"""
        if b.op in ('true', 'false'):
            return b.op == 'true'
        if b.op == 'not':
            return not self.holds_mp(b.a[0], assign, memo)
        if b.op == 'and':
            return all(self.holds_mp(x, assign, memo) for x in b.a)
        if b.op == 'or':
            return any(self.holds_mp(x, assign, memo) for x in b.a)
        if not isinstance(b.a[0], T):
            raise Unsupported('integer fact')
        x, y = eval_mp([b.a[0], b.a[1]], assign, memo)
        return x < y if b.op == 'lt' else x <= y if b.op == 'le' else x == y

    def num_zero(self, x, y):
        """x = y at generic points of the path, in 60 digits: True, False (a point where they clearly differ), None"""
        import mpmath
        old = mpmath.mp.dps
        mpmath.mp.dps = 60
        try:
            aux = {}

            def ismine(t):
                if t.id not in aux:
                    aux[t.id] = any(u.op == 'var' and str(u.a).startswith('M!') for u in topo([t]))
                return aux[t.id]
            facts = []
            for f in self.facts:
                acc = []
                batoms(f, acc)
                if all(isinstance(u, T) for u in acc) and not any(ismine(u) for u in acc):
                    facts.append(f)
            same = 0
            rng = random.Random(11)
            for m in self.models(3):
                for _ in range(6):
                    vals = {}

                    def assign(t):
                        v = vals.get(t.a)
                        if v is None:
                            b = m.get(t.a)
                            if b is None:
                                b = rng.uniform(0.3, 3) if t.a in self.positive else rng.uniform(-3, 3)
                            v = vals[t.a] = mpmath.mpf(b) + mpmath.mpf(rng.uniform(-1, 1)) * 1e-3 * (abs(b) if t.a in self.positive else 1)
                        return v
                    memo = {}
                    try:
                        if not all(self.holds_mp(f, assign, memo) for f in facts):
                            continue
                        a, b = eval_mp([x, y], assign, memo)
                    except (ZeroDivisionError, ValueError):
                        continue
                    d, sc = abs(a - b), abs(a) + abs(b)
                    if d > mpmath.mpf(10) ** -20 * sc:
                        return False
                    if d <= mpmath.mpf(10) ** -40 * (sc + mpmath.mpf(10) ** -6):
                        same += 1
                        if same >= 6:
                            return True
            return None
        except Unsupported:
            return None
        finally:
            mpmath.mp.dps = old

    # -- solver
    def _add(self, b):
        acc = []
        batoms(b, acc)
        lin = True
        for u in topo(acc):
            if u.op in ('var', 'sel'):
                self.cvars.add(u.id)
            elif not (u.op in ('const', 'add', 'neg') or u.op == 'mul' and u.a[0].op == 'const'):
                lin = False
        if lin and acc:
            self.sl.add(zb(b))
        self._mono(acc)
        for sc in zside(acc, self.sseen):
            self.s.add(sc)
        self.s.add(zb(b))

    def _mono(self, ts):
        if not self.mono:
            return
        for u in topo(ts):
            if u.op == 'sel' and u.a[0] in self.mono:
                L = self.mono[u.a[0]]
                i = u.a[1]
                if i in L:
                    continue
                f = zt(u)
                zi = z_int(i)
                for j in L:
                    g = zt(sel(u.a[0], j))
                    d = i - j
                    if isinstance(d, int):
                        self.s.add(f >= g if d >= 0 else f <= g)
                        if d == 0:
                            self.s.add(f == g)
                    else:
                        zj = z_int(j)
                        self.s.add(z3.Implies(zi >= zj, f >= g), z3.Implies(zi <= zj, f <= g))
                L.append(i)

    def _check(self, e, ts=()):
        self.nz += 1
        t0 = time.time()
        self._mono(ts)
        extra = zside(list(ts), dict(self.sseen)) if ts else []
        self.s.push()
        for x in extra:
            self.s.add(x)
        self.s.add(e)
        r = self.s.check()
        m = None
        if r == z3.sat:
            m = self.s.model()
        self.s.pop()
        self.ztime += time.time() - t0
        return r, m

    def lentails(self, z):
        """the linear facts entail z"""
        r = self.lmemo.get((self.nl(), z.get_id()))
        if r is None:
            t = time.time()
            self.sl.push()
            self.sl.add(z3.Not(z))
            r = self.sl.check() == z3.unsat
            self.sl.pop()
            self.ztime += time.time() - t
            self.lmemo[(self.nl(), z.get_id())] = r
            self.lkeep.append(z)
        return r

    def nl(self):
        return len(self.facts)

    def assume(self, b):
        b = lb(b)
        if b.op == 'true':
            return
        self.facts.append(b)
        self._add(b)
        self.model = None
        self.memo = {}

    def entails(self, b):
        """facts |= b ?"""
        if isinstance(b, bool):
            return b
        if b.op in ('true', 'false'):
            return b.op == 'true'
        q = self.quick(b)
        if q is not None:
            return q
        acc = []
        batoms(b, acc)
        z = zb(b)
        if self.model is not None and not acc_has_side(acc):
            try:
                v = self.model.eval(z, model_completion=True)
                if z3.is_false(v):
                    return False
            except z3.Z3Exception:
                pass
        r, m = self._check(z3.Not(z), acc)
        if r == z3.sat:
            self.model = m
        return r == z3.unsat

    def bkey(self, b):
        if b.op in ('lt', 'le', 'eq'):
            return (b.op,) + tuple((x.id if isinstance(x, T) else ('i',) + (x.key if isinstance(x, SI) else (x,))) for x in b.a)
        return (b.op,) + tuple(self.bkey(x) for x in b.a)

    def decide(self, b):
        """fork on a branch condition"""
        if isinstance(b, bool):
            return b
        if b.op == 'true':
            return True
        if b.op == 'false':
            return False
        q = self.quick(b)
        if q is not None:
            return q
        k = self.bkey(b)
        if k in self.memo:
            return self.memo[k]
        if self.deadline and time.time() > self.deadline:
            raise TooManySteps('time budget')
        if b.op in ('lt', 'le', 'eq') and isinstance(b.a[0], T):
            # a side that vanishes identically (e.g. the distance of two equal points) is replaced by zero
            x, y = b.a
            x2 = ZERO if not isc(x) and has_sqrt(x) and pit_zero(x, self.rng, self.positive) else x
            y2 = ZERO if not isc(y) and has_sqrt(y) and pit_zero(y, self.rng, self.positive) else y
            if x2 is not x or y2 is not y:
                v = self.decide(lb(rel(b.op, x2, y2)))
                self.memo[k] = v
                return v
        n = len(self.trace)
        if n < len(self.prefix):
            v, forced, unsure = self.prefix[n]
            if unsure:
                self.uncertain = True
            self.trace.append((v, False, False, False))
            if not forced:
                self._take(b, v)
            self.memo[k] = v
            return v
        acc = []
        batoms(b, acc)
        z = zb(b)
        mv = None
        if self.model is not None:
            try:
                e = self.model.eval(z, model_completion=True)
                mv = True if z3.is_true(e) else False if z3.is_false(e) else None
                if acc_has_side(acc):
                    mv = None
            except z3.Z3Exception:
                mv = None
        rt = rf = None
        mt = mf = None
        if mv is not True:
            rt, mt = self._check(z, acc)
        else:
            rt, mt = z3.sat, self.model
        if mv is not False:
            rf, mf = self._check(z3.Not(z), acc)
        else:
            rf, mf = z3.sat, self.model
        if rt == z3.unsat and rf == z3.unsat:
            raise Infeasible()
        if rt == z3.unsat:
            v, both = False, False
        elif rf == z3.unsat:
            v, both = True, False
        else:
            # prefer a definitely feasible side first
            v = True if rt == z3.sat or rf != z3.sat else False
            both = True
            if (rt if v else rf) == z3.unknown:
                self.uncertain = True
        self.model = mt if v else mf
        # (side taken, other side open, this side / the other side not known to be feasible)
        self.trace.append((v, both, both and (rt if v else rf) == z3.unknown, both and (rf if v else rt) == z3.unknown))
        self.memo[k] = v
        if both:
            self._take(b, v, keep=True)
        return v

    def _take(self, b, v, keep=False):
        f = b if v else bnot(b)
        self.facts.append(f)
        self._add(f)
        if not keep:
            self.model = None
        # equalities over ints become substitutions
        self._learn(f)

    def _learn(self, f):
        if f.op == 'eq' and not isinstance(f.a[0], T):
            pass

    def divmod(self, a, b):
        """C++ (truncating) division of a symbolic int by a positive constant"""
        if not isinstance(b, int) or b <= 0:
            raise Unsupported('symbolic integer division')
        if self.decide(rel('lt', a, 0)):
            q, r = self.divmod(-a if not isinstance(a, int) else -a, b)
            return -q, -r
        self.nfresh = getattr(self, 'nfresh', 0) + 1
        q = ivar('q!%d' % self.nfresh)
        r = a - q * b
        self.assume(band(rel('le', 0, r), rel('lt', r, b)))
        return q, r

    def trunc(self, v):
        raise Unsupported('truncation of a symbolic real')

    # -- comparisons used by the interpreter
    def lt(self, x, y): return self.decide(rel('lt', x, y))
    def le(self, x, y): return self.decide(rel('le', x, y))
    def eq(self, x, y): return self.decide(rel('eq', x, y))

    # -- obligations
    def oblig(self, name, status, backend, detail='', t=0.0):
        self.obls.append((name, status, backend, detail, t))

    def fail(self, name, detail=''):
        self.oblig(name, 'fail', '-', detail)

    def prove_eq(self, name, x, y):
        t0 = time.time()
        if not isinstance(x, (T, SI)) and not isinstance(y, (T, SI)):
            ok = x == y
            self.oblig(name, 'ok' if ok else 'fail', 'eval', '' if ok else '%r != %r' % (x, y))
            return ok
        if _isint(x) and _isint(y):
            return self.prove(name, rel('eq', x, y))
        x, y = lift(x), lift(y)
        d = x - y
        if d is ZERO:
            self.oblig(name, 'ok', 'syntactic', '', time.time() - t0)
            return True
        ex = expand_exact(d, 300)
        if ex is not None and not ex:
            self.oblig(name, 'ok', 'poly-nf', '', time.time() - t0)
            return True
        r = pit_zero(d, self.rng, self.positive, 8 if has_sqrt(d) else 2)
        if r:
            self.oblig(name, 'ok', 'pit', '', time.time() - t0)
            return True
        # not a global identity: does the path condition force it?
        if self.eq_under_facts(d):
            self.oblig(name, 'ok', 'pit+facts', '', time.time() - t0)
            return True
        if has_sqrt(d):
            # the field test is inconclusive when roots of sums are involved: decide over the reals
            r = self.num_zero(x, y)
            if r:
                self.oblig(name, 'ok', 'num-id', '', time.time() - t0)
                return True
        b = B('eq', x, y)
        acc = [x, y]
        rr, m = self._check(z3.Not(zb(b)), acc)
        if rr == z3.unsat:
            self.oblig(name, 'ok', 'z3', '', time.time() - t0)
            return True
        haseq = any(g.op == 'eq' and isinstance(g.a[0], T) for f in self.facts for g in (f.a if f.op == 'and' else (f,)))
        st = 'fail' if rr == z3.sat or (r is False and not haseq and not self.uncertain) else 'unknown'
        self.oblig(name, st, 'z3' if rr == z3.sat else 'pit', 'lhs-rhs is not identically zero', time.time() - t0)
        if st == 'fail' and rr == z3.sat:
            self.cex = m
        return False

    def eq_under_facts(self, d):
        """substitute linear equalities among the facts, then PIT"""
        sub = {}
        for f in self.facts:
            for g in (f.a if f.op == 'and' else (f,)):
                if g.op == 'eq' and isinstance(g.a[0], T):
                    e = subst(g.a[0] - g.a[1], sub)
                    v = solve_lin(e)
                    if v is not None:
                        lf, val = v
                        sub = {k: subst(x, {lf: val}) for k, x in sub.items()}
                        sub[lf] = val
        if not sub:
            return False
        try:
            return bool(pit_zero(subst(d, sub), self.rng, self.positive))
        except ZeroDivisionError:
            return False

    def prove(self, name, b, backend_hint=None):
        t0 = time.time()
        if isinstance(b, bool):
            self.oblig(name, 'ok' if b else 'fail', 'eval')
            return b
        if b.op == 'true':
            self.oblig(name, 'ok', 'syntactic'); return True
        if b.op in ('lt', 'le') and isinstance(b.a[0], T):
            # x < y  via sign analysis of y - x
            if self.pos is None or self.pos_n != len(self.facts):
                self.pos = Pos(self); self.pos_n = len(self.facts)
            sg = self.pos.sign(b.a[1] - b.a[0])
            if sg == '+' or (sg in ('0+', '00') and b.op == 'le'):
                self.oblig(name, 'ok', 'sign', '', time.time() - t0)
                return True
        acc = []
        batoms(b, acc)
        r, m = self._check(z3.Not(zb(b)), acc)
        st = 'ok' if r == z3.unsat else 'fail' if r == z3.sat else 'unknown'
        if st == 'fail':
            self.cex = m
        self.oblig(name, st, 'z3', '' if st == 'ok' else repr(b)[:300], time.time() - t0)
        return st == 'ok'


def acc_has_side(acc):
    for u in topo(acc):
        if u.op in ('sqrt', 'fn', 'div'):
            return True
    return False


def subst(t, m):
    if not m:
        return t
    memo = {}
    for u in topo([t]):
        if u in m:
            r = m[u]
        elif u.op in ('const', 'var', 'sel'):
            r = u
        else:
            A = [memo[c.id] for c in children(u)]
            if u.op == 'add': r = add(*A)
            elif u.op == 'mul': r = mul(*A)
            elif u.op == 'neg': r = neg(*A)
            elif u.op == 'div': r = div(*A)
            elif u.op == 'sqrt': r = sqrt_(*A)
            elif u.op == 'abs': r = abs_(*A)
            elif u.op == 'max': r = max_(*A)
            elif u.op == 'min': r = min_(*A)
            else: r = fn(u.a[0], *A)
        memo[u.id] = r
    return memo[t.id]


def solve_lin(e):
    """e == 0 -> (leaf, term) if e is linear in some leaf with constant coefficient"""
    ex = expand_exact(e, 60)
    if not ex:
        return None
    byid = {u.id: u for u in topo([e])}
    deg = {}
    for k in ex:
        for x, q in k:
            deg[x] = max(deg.get(x, 0), 1 if len(k) == 1 and q == 1 else 99)
    for x, q in deg.items():
        if q == 1:
            c = ex[((x, 1),)]
            r = ZERO
            for k, v in ex.items():
                if k == ((x, 1),):
                    continue
                m = const(v)
                for y, p in k:
                    m = m * (byid[y] ** p)
                r = r + m
            return byid[x], mul(const(Fraction(-1) / c), r)
    return None


from terms import _isint


def explore(run, max_paths=400, rng=None, timeout=4000):
    """run(ctx) for every feasible path; yields finished contexts"""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        n += 1
        if n > max_paths:
            raise TooManySteps('more than %d paths' % max_paths)
        c = Ctx(pre, rng, timeout)
        try:
            run(c)
        except Infeasible:
            c.infeasible = True
        except PathAbort:
            pass
        full = list(pre) + [(v, not both, un) for v, both, un, _ in c.trace[len(pre):]]
        for i in range(len(pre), len(c.trace)):
            v, both, _, other = c.trace[i]
            if both:
                stack.append(full[:i] + [(not v, False, other)])
        yield c
