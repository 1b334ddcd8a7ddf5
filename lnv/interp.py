"""Symbolic/concrete execution of clang ASTs: each function body is compiled to Python
closures over the semantic AST; scalars are exact reals (terms), Python floats (conformance
mode) or integers; every branch on symbolic data is decided by the path context."""
import math, re
from fractions import Fraction
from terms import *
from terms import _isint
from values import *
from frontend import ty, Program, FUNK
import stdlib

BRK, CNT = object(), object()


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Ref(tuple):
    """lvalue of a scalar: (container, key)"""
    __slots__ = ()


SCALARS = {'int', 'double', 'bool', 'float', 'unsigned int', 'unsigned long', 'long', 'long long',
           'unsigned long long', 'char', 'short', 'size_t', 'unsigned char', 'std::size_t', 'difference_type',
           'long double', 'unsigned', 'ptrdiff_t', 'uint32_t', 'int64_t'}
UNSIGNED = {'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'size_t': 64, 'unsigned char': 8,
            'std::size_t': 64, 'unsigned': 32}
INTS = {'int', 'long', 'long long', 'char', 'short', 'bool', 'difference_type'} | set(UNSIGNED)
FLOATS = {'double', 'float', 'long double'}

_strip_re = re.compile(r'\b(const|volatile|class|struct|enum|typename)\b\s*')


def strip(t):
    t = _strip_re.sub('', t).replace('LNLib::', '').strip()
    while t.endswith('const'):
        t = t[:-5].strip()
    return t


def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(t):
    i = t.find('<')
    if i < 0:
        return []
    return split_args(t[i + 1:t.rfind('>')])


class Fn:
    __slots__ = ('name', 'qual', 'params', 'body', 'nslots', 'retref', 'isstatic', 'inits', 'cls', 'node', 'unit',
                 'rettype', 'mangled', 'iscls')


class Interp:
    def __init__(self, prog, ctx=None, mode='sym', max_steps=200000):
        self.p = prog
        self.ctx = ctx
        self.mode = mode            # 'sym' | 'float'
        self.fns = {}
        self.summaries = {}         # qual name -> python function(interp, fn, args)
        self.globals = {}
        self.max_steps = max_steps
        self.steps = 0
        self.typedefs = {}
        self.enumconst = {}
        self.enumtypes = set()
        self.calls = {}
        self.check_div = False
        self.div_done = set()
        self.where = []
        self.loop_hook = None
        self.ctor_cache = {}
        self.cls_bases = {}
        self.static_stack = []
        self.depth = 0
        self.fork_abs = True
        self._index()

    def _index(self):
        for u in self.p.units.values():
            for i, n in u.byid.items():
                k = n['kind']
                if k in ('TypedefDecl', 'TypeAliasDecl') and n.get('name'):
                    self.typedefs.setdefault(n['name'], strip(ty(n)))
                elif k == 'EnumDecl' and n.get('name'):
                    self.enumtypes.add(n['name'])
        self.typedefs.update({'LN_NurbsCurve': 'LN_BsplineCurve<XYZW>', 'LN_NurbsSurface': 'LN_BsplineSurface<XYZW>',
                              'LN_NurbsVolume': 'LN_BsplineVolume<XYZW>'})

    # ------------------------------------------------------------ types
    def canon(self, t):
        t = strip(t)
        while t.endswith('&'):
            t = t[:-1].strip()
            t = strip(t)
        r = self.typedefs.get(t)
        if r and r != t:
            return self.canon(r)
        if t.startswith('vector<'):
            t = 'std::' + t
        return t

    def is_scalar(self, t):
        t = self.canon(t)
        return t in SCALARS or t.endswith('*') or t in self.enumtypes or t == 'std::nullptr_t' or t.endswith('::size_type') \
            or t in ('size_type', 'difference_type') or t.endswith('::difference_type')

    def default(self, t, zero=False):
        t = self.canon(t)
        if t.endswith('*'):
            return None if zero else UNINIT
        if t in SCALARS or t in self.enumtypes:
            if zero:
                return 0 if t not in FLOATS else self.zero()
            return UNINIT
        if t.endswith(']'):
            i = t.index('[')
            n = int(t[i + 1:t.index(']')])
            et = t[:i].strip() + t[t.index(']') + 1:]
            return Vec([self.default(et, zero) for _ in range(n)], et, True)
        if t.startswith('std::vector<'):
            return Vec([], targs(t)[0])
        if t.startswith('std::array<') or t.startswith('array<'):
            a = targs(t)
            return Vec([self.default(a[0], zero) for _ in range(int(a[1]))], a[0], True)
        if t.startswith('std::map<') or t.startswith('map<'):
            a = targs(t)
            return MapV(a[0], a[1])
        if t.startswith('std::pair<') or t.startswith('pair<'):
            a = targs(t)
            return Obj('std::pair', {'first': self.default(a[0], True), 'second': self.default(a[1], True)})
        if t in self.p.classes or t.replace(' ', '') in self.p.classes:
            return self.construct(t, 'void ()', [], zero)
        if t.startswith('__gnu_cxx::__normal_iterator') or t.endswith('iterator'):
            return It(None, 0)
        if t.startswith('std::basic_string') or t == 'std::string':
            return ''
        raise Unsupported('default value of type ' + t)

    def zero(self):
        return Fraction(0) if self.mode == 'sym' else 0.0

    def num(self, fr):
        return fr if self.mode == 'sym' else float(fr)

    # ------------------------------------------------------------ classes
    def cls(self, name):
        name = self.canon(name).replace(' ', '')
        return self.p.classes.get(name)

    def bases(self, name):
        c = self.cls(name)
        if not c:
            return []
        return [self.canon(b['type'].get('desugaredQualType', b['type']['qualType'])) for b in c[1].get('bases', ())]

    def fields(self, name):
        out = []
        for b in self.bases(name):
            out += self.fields(b)
        c = self.cls(name)
        if c:
            for m in c[1].get('inner', ()):
                if m.get('kind') == 'FieldDecl':
                    out.append((c[0], m))
        return out

    def find_ctor(self, name, ctype):
        key = (name, ctype)
        if key in self.ctor_cache:
            return self.ctor_cache[key]
        r = None
        c = self.cls(name)
        if c:
            for m in c[1].get('inner', ()):
                if m.get('kind') == 'CXXConstructorDecl' and norm_sig(m['type']['qualType']) == norm_sig(ctype):
                    if m.get('isImplicit') or m.get('explicitlyDefaulted'):
                        break
                    d = self.p.defs.get(m.get('mangledName'))
                    if d:
                        r = self.fn(m['mangledName'])
                    break
        self.ctor_cache[key] = r
        return r

    def construct(self, name, ctype, args, zero=False):
        """args: already evaluated (aggregates by identity)"""
        name = self.canon(name).replace(' ', '')
        f = self.find_ctor(name, ctype)
        if f is None:
            sig = norm_sig(ctype)
            if len(args) == 1 and isinstance(args[0], Obj):
                return args[0].copy()
            if args:
                raise Unsupported('constructor %s %s' % (name, ctype))
            o = Obj(name, {})
            for u, fd in self.fields(name):
                o.f[fd['name']] = self.field_init(u, fd, zero)
            return o
        o = Obj(name, {})
        inits = {i[0]: i[1] for i in f.inits}
        env = [None] * f.nslots
        env[0] = o
        self.bind(f, env, args)
        for u, fd in self.fields(name):
            if fd['name'] in inits:
                v = inits[fd['name']](env)
                o.f[fd['name']] = cp(v) if isinstance(v, AGG) else v
            else:
                o.f[fd['name']] = self.field_init(u, fd, zero)
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        f.body(env)
        return o

    def field_init(self, u, fd, zero):
        inner = [x for x in fd.get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
        if fd.get('hasInClassInitializer') and inner:
            c = Comp(self, u)
            v = c.rv(inner[0])([None] * 64)
            return cp(v)
        return self.default(ty(fd), zero)

    # ------------------------------------------------------------ functions
    def fn(self, mangled):
        f = self.fns.get(mangled)
        if f is None:
            if mangled not in self.p.defs:
                return None
            u, n = self.p.defs[mangled]
            f = self.fns[mangled] = Fn()
            f.mangled = mangled
            f.qual = self.p.qual(u, n)
            try:
                Comp(self, u).function(n, f)
            except Unsupported as e:
                if f.qual not in self.summaries:
                    del self.fns[mangled]
                    raise
                why = str(e)

                def body(env):
                    raise Unsupported(why)
                f.body = body
                f.nslots = 64
            except BaseException:
                del self.fns[mangled]
                raise
        return f

    def bind(self, f, env, args):
        for (slot, kind), a in zip(f.params, args):
            if kind == 'val' and isinstance(a, AGG):
                a = a.copy()
            env[slot] = a

    def call(self, f, args, this=None):
        """args: values; for scalar references a Ref"""
        s = self.summaries.get(f.qual)
        if s is not None:
            r = s(self, f, args, this)
            if r is not NotImplemented:
                return r
        env = [None] * f.nslots
        env[0] = this
        for (slot, kind), a in zip(f.params, args):
            if kind == 'val' and isinstance(a, AGG):
                a = a.copy()
            env[slot] = a
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise CppUB('recursion does not terminate in ' + f.qual)
        self.where.append(f.qual)
        r = f.body(env)
        self.where.pop()
        self.depth -= 1
        if isinstance(r, Ret):
            return r.v
        return None

    def invoke(self, qual, args, sig=None, this=None):
        """entry point for contracts: scalars by reference passed as one-element lists"""
        ms = self.p.find(qual, sig)
        if len(ms) != 1:
            raise Unsupported('function %s (%s): %d definitions' % (qual, sig, len(ms)))
        f = self.fn(ms[0])
        a2 = []
        for (slot, kind), a in zip(f.params, args):
            if kind == 'sref':
                a = Ref((a, 0)) if isinstance(a, list) else Ref(([a], 0))
            a2.append(a)
        r = self.call(f, a2, this)
        if isinstance(r, Ref):
            r = r[0][r[1]]
        return r

    # ------------------------------------------------------------ scalar ops
    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise CppUB('does not terminate (more than %d loop iterations) in %s' % (self.max_steps, '/'.join(self.where[-3:])))

    def ub(self, what):
        raise CppUB(what + ' in ' + '/'.join(self.where[-3:]))

    def lt(self, a, b):
        if isinstance(a, (T, SI)) or isinstance(b, (T, SI)):
            return self.ctx.decide(rel('lt', a, b))
        return a < b

    def le(self, a, b):
        if isinstance(a, (T, SI)) or isinstance(b, (T, SI)):
            return self.ctx.decide(rel('le', a, b))
        return a <= b

    def eq(self, a, b):
        if isinstance(a, (T, SI)) or isinstance(b, (T, SI)):
            return self.ctx.decide(rel('eq', a, b))
        return a == b

    def fdiv(self, a, b):
        if isinstance(b, T) or isinstance(b, SI):
            if isinstance(b, SI):
                b = si2t(b)
            if self.check_div and b.id not in self.div_done:
                self.div_done.add(b.id)
                self.nonzero(b)
            if isinstance(a, (int, Fraction)) or isinstance(a, (T, SI)):
                return lift(a) / b
            raise Unsupported('division of %r' % (a,))
        if b == 0:
            if self.mode == 'float':
                if a == 0 or a != a:
                    return math.nan
                neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
                return -math.inf if neg else math.inf
            self.ub('division by zero')
        if isinstance(b, Uninit):
            self.ub('read of an uninitialised value')
        if isinstance(a, float) or isinstance(b, float):
            try:
                return float(a) / float(b)
            except OverflowError:
                return math.inf
        if isinstance(a, T):
            return a / b
        if isinstance(a, SI):
            return lift(a) / b
        return Fraction(a) / Fraction(b)

    def nonzero(self, b):
        c = self.ctx
        if c.pos is None or c.pos_n != len(c.facts):
            from solver import Pos
            c.pos = Pos(c); c.pos_n = len(c.facts)
        sg = c.pos.sign(b)
        if sg in ('+', '-'):
            c.oblig('division by non-zero in ' + '/'.join(self.where[-1:]), 'ok', 'sign')
            return
        ok = c.prove('division by non-zero in ' + '/'.join(self.where[-1:]), bnot(B('eq', b, ZERO)))

    def sign(self, x):
        c = self.ctx
        if c is None:
            return None
        if c.pos is None or c.pos_n != len(c.facts):
            from solver import Pos
            c.pos = Pos(c); c.pos_n = len(c.facts)
        return c.pos.sign(x)

    # symbolic-length vectors (installed by svec.py)
    def make_sym(self, n, et, val):
        raise Unsupported('vector of symbolic length')

    def sym_slice(self, a, b, et):
        raise Unsupported('vector of symbolic length')

    def sym_push(self, v, a):
        return False

    def sym_resize(self, v, n, val):
        raise Unsupported('resize to a symbolic length')

    def sym_insert(self, v, a):
        raise Unsupported('insert into a symbolic vector')

    def sym_erase(self, v, a):
        raise Unsupported('erase from a symbolic vector')

    def idiv(self, a, b):
        if isinstance(a, SI):
            if isinstance(b, int) and b > 0:
                q, r = self.ctx.divmod(a, b)
                return q
            raise Unsupported('symbolic integer division')
        if isinstance(b, SI):
            raise Unsupported('symbolic integer division')
        if b == 0:
            self.ub('integer division by zero')
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def imod(self, a, b):
        if isinstance(a, SI):
            q, r = self.ctx.divmod(a, b)
            return r
        return a - b * self.idiv(a, b)

    def wrap(self, v, t):
        """value v stored in integer type t"""
        if isinstance(v, SI):
            if t in UNSIGNED:
                if self.ctx.decide(rel('lt', v, 0)):
                    return v + (1 << UNSIGNED[t])
            return v
        if t in UNSIGNED:
            return v & ((1 << UNSIGNED[t]) - 1) if isinstance(v, int) else v
        if isinstance(v, int) and not isinstance(v, bool):
            if t == 'int' and not (-(1 << 31) <= v < (1 << 31)):
                w = v & 0xffffffff
                return w - (1 << 32) if w >> 31 else w
            if t in ('long', 'long long') and not (-(1 << 63) <= v < (1 << 63)):
                w = v & ((1 << 64) - 1)
                return w - (1 << 64) if w >> 63 else w
        return v

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (T, SI)):
            return not self.eq(v, 0)
        if isinstance(v, Uninit):
            self.ub('read of an uninitialised value')
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        return True

    # vector element
    def elem(self, v, i):
        d = v.d
        if type(i) is int:
            if 0 <= i < len(d):
                return d[i]
            self.ub('index %d out of range [0,%d)' % (i, len(d)))
        return self.elem_slow(v, i)

    def elem_slow(self, v, i):
        if isinstance(i, (bool,)):
            return self.elem(v, int(i))
        if isinstance(i, Uninit):
            self.ub('uninitialised index')
        g = getattr(v.d, 'sym_get', None)
        if g is not None:
            return g(self, i)
        if isinstance(i, SI):
            # concrete-length vector, symbolic index: case split
            n = len(v.d)
            for j in range(n):
                if self.ctx.decide(rel('eq', i, j)):
                    return v.d[j]
            self.ub('symbolic index %r out of range [0,%d)' % (i, n))
        raise Unsupported('index %r' % (i,))

    def elem_ref(self, v, i):
        d = v.d
        if type(i) is int:
            if 0 <= i < len(d):
                return Ref((d, i))
            self.ub('index %d out of range [0,%d)' % (i, len(d)))
        if isinstance(i, bool):
            return self.elem_ref(v, int(i))
        g = getattr(d, 'sym_ref', None)
        if g is not None:
            return g(self, i)
        if isinstance(i, SI):
            n = len(d)
            for j in range(n):
                if self.ctx.decide(rel('eq', i, j)):
                    return Ref((d, j))
            self.ub('symbolic index %r out of range [0,%d)' % (i, n))
        self.ub('bad index %r' % (i,))


def norm_sig(s):
    s = strip(s.replace(' noexcept', ''))
    s = re.sub(r'\(false\)|\(true\)', '', s)
    return s.replace(' ', '')


# ====================================================================== compiler
EXPRK = ('Expr', 'Literal', 'Operator', 'ExprWithCleanups')


class Comp:
    def __init__(self, ip, unit):
        self.ip = ip
        self.u = unit
        self.slots = {}       # declId -> (slot, kind) kind: 'val' | 'sref'
        self.n = 1            # slot 0 = this
        self.retref = False
        self.localtypes = {}

    # ---------------------------------------------------------- functions
    def function(self, n, f):
        ip = self.ip
        f.node = n
        f.unit = self.u
        f.name = n['name']
        f.params = []
        f.inits = []
        ft = n['type']['qualType']
        rt = ft[:ft.index('(')].strip() if '(' in ft else 'void'
        if rt == 'auto' and '->' in ft:
            rt = ft[ft.index('->') + 2:].strip()
        f.rettype = rt
        f.retref = rt.endswith('&') and ip.is_scalar(rt)
        f.iscls = not ip.is_scalar(rt)
        self.retref = f.retref
        self.rettype = rt
        body = None
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k == 'ParmVarDecl':
                t = ty(c)
                if t.rstrip().endswith('&') and ip.is_scalar(t):
                    kind = 'sref'
                elif t.rstrip().endswith('&'):
                    kind = 'ref'
                else:
                    kind = 'val'
                f.params.append((self.new(c['id'], 'sref' if kind == 'sref' else 'val', t), kind))
            elif k == 'CompoundStmt':
                body = c
            elif k == 'CXXCtorInitializer':
                nm = c.get('anyInit', {}).get('name')
                if nm:
                    f.inits.append((nm, self.init_expr(c['inner'][0], c.get('anyInit', {}).get('type', {}).get('qualType', ''))))
        f.body = self.stmt(body)
        f.nslots = self.n
        # nslots may grow while compiling lambdas lazily: compile is eager, fine

    def new(self, declid, kind, t=''):
        s = self.n
        self.n += 1
        self.slots[declid] = (s, kind)
        self.localtypes[declid] = t
        return s

    # ---------------------------------------------------------- statements
    def stmt(self, n):
        if n is None or not n.get('kind'):
            return lambda env: None
        try:
            return self.stmt1(n)
        except Unsupported as e:
            why = str(e)

            def run(env):
                raise Unsupported(why)
            return run

    def stmt1(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        if k.endswith(EXPRK) or hasattr(self, 'e_' + k):
            e = self.rv(n)

            def run(env):
                e(env)
            return run
        raise Unsupported('statement ' + k)

    def s_NullStmt(self, n):
        return lambda env: None

    def s_CompoundStmt(self, n):
        ss = [self.stmt(c) for c in n.get('inner', ())]
        if len(ss) == 1:
            return ss[0]

        def run(env):
            for s in ss:
                r = s(env)
                if r is not None:
                    return r
        return run

    def s_AttributedStmt(self, n):
        return self.stmt(n['inner'][-1])

    def s_DeclStmt(self, n):
        ss = []
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k == 'VarDecl':
                ss.append(self.vardecl(c))
            elif k == 'DecompositionDecl':
                ss.append(self.decomp(c))
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'CXXRecordDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl'):
                pass
            else:
                raise Unsupported('declaration ' + str(k))
        if len(ss) == 1:
            return ss[0]

        def run(env):
            for s in ss:
                s(env)
        return run

    def decomp(self, c):
        # auto [a, b] = pair-like / auto& [k, v] : map element
        init = None
        binds = []
        for x in c.get('inner', ()):
            if x.get('kind') == 'BindingDecl':
                binds.append(x)
            elif init is None:
                init = x
        e = self.rv(init)
        isref = ty(c).endswith('&')
        slots = []
        for b in binds:
            slots.append((self.new(b['id'], 'sref', ty(b)), b))
        ip = self.ip

        def run(env):
            v = e(env)
            if not isref:
                v = cp(v)
            if isinstance(v, Obj):
                ks = list(v.f)
                for (s, b), key in zip(slots, ks):
                    env[s] = Ref((v.f, key))
            elif isinstance(v, Vec):
                for i, (s, b) in enumerate(slots):
                    env[s] = Ref((v.d, i))
            else:
                raise Unsupported('structured binding')
        return run

    def init_expr(self, e, t):
        f = self.rv(e)
        k = e
        while k['kind'] in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'):
            k = k['inner'][0]
        if k['kind'] == 'InitListExpr':
            pass
        return f

    def vardecl(self, c):
        ip = self.ip
        t = ty(c)
        isref = t.rstrip().endswith('&')
        sc = ip.is_scalar(t)
        static = c.get('storageClass') == 'static'
        inner = [x for x in c.get('inner', ()) if x.get('kind', '').endswith(EXPRK)]
        init = inner[0] if inner else None
        if sc and isref and init is not None:
            lv = self.lv(init)
            s = self.new(c['id'], 'sref', t)

            def run(env):
                env[s] = lv(env)
            return run
        if init is None:
            s = self.new(c['id'], 'val', t)
            if sc:
                def run(env):
                    env[s] = UNINIT
            else:
                def run(env):
                    env[s] = ip.default(t)
            return run
        # array with constructor init: default
        ct = ip.canon(t)
        if ct.endswith(']') and init['kind'] in ('CXXConstructExpr',):
            s = self.new(c['id'], 'val', t)

            def run(env):
                env[s] = ip.default(t)
            return run
        s = self.new(c['id'], 'val', t)
        e = self.rv(init)
        if sc:
            if static:
                cell = []

                def run(env):
                    if not cell:
                        cell.append(e(env))
                    env[s] = cell[0]
                if 'const' not in t:
                    raise Unsupported('static local variable')
                return run

            def run(env):
                env[s] = e(env)
            return run
        if isref:
            def run(env):
                env[s] = e(env)
            return run
        if static and 'const' not in t:
            raise Unsupported('static local variable')

        need = not is_fresh(init)

        def run(env):
            v = e(env)
            env[s] = cp(v) if need else v
        return run

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        pre = None
        if n.get('hasInit') or n.get('hasVar'):
            pre = self.stmt(inner.pop(0))
        c = self.cond(inner[0])
        a = self.stmt(inner[1])
        b = self.stmt(inner[2]) if len(inner) > 2 else None

        def run(env):
            if pre is not None:
                pre(env)
            if c(env):
                return a(env)
            if b is not None:
                return b(env)
        return run

    def s_ForStmt(self, n):
        inner = n['inner']       # init, condvar, cond, inc, body
        init = self.stmt(inner[0]) if inner[0].get('kind') else None
        cond = self.cond(inner[2]) if inner[2].get('kind') else None
        inc = self.rv(inner[3]) if inner[3].get('kind') else None
        body = self.stmt(inner[4])
        ip = self.ip
        info = LoopInfo(self, n, inner[0], inner[2], inner[3], inner[4], cond, inc, body)

        def run(env):
            if init is not None:
                init(env)
            if ip.loop_hook is not None:
                r = ip.loop_hook(ip, info, env)
                if r is not NotImplemented:
                    return r
            while True:
                if cond is not None and not cond(env):
                    break
                ip.step()
                r = body(env)
                if r is not None:
                    if r is BRK:
                        break
                    if r is not CNT:
                        return r
                if inc is not None:
                    inc(env)
        return run

    def s_WhileStmt(self, n):
        inner = [x for x in n['inner']]
        pre = None
        if n.get('hasVar'):
            pre = self.stmt(inner.pop(0))
        cond = self.cond(inner[0])
        body = self.stmt(inner[1])
        ip = self.ip
        info = LoopInfo(self, n, None, inner[0], None, inner[1], cond, None, body)

        def run(env):
            if ip.loop_hook is not None:
                r = ip.loop_hook(ip, info, env)
                if r is not NotImplemented:
                    return r
            while cond(env):
                ip.step()
                r = body(env)
                if r is not None:
                    if r is BRK:
                        break
                    if r is not CNT:
                        return r
        return run

    def s_DoStmt(self, n):
        body = self.stmt(n['inner'][0])
        cond = self.cond(n['inner'][1])
        ip = self.ip

        def run(env):
            while True:
                ip.step()
                r = body(env)
                if r is not None:
                    if r is BRK:
                        break
                    if r is not CNT:
                        return r
                if not cond(env):
                    break
        return run

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # [init, range, begin, end, cond, inc, loopvar, body]
        init = self.stmt(inner[0]) if inner[0].get('kind') else None
        rng = inner[1]['inner'][0]
        rexpr = self.rv([x for x in rng['inner'] if x.get('kind', '').endswith(EXPRK)][0])
        lv = inner[6]['inner'][0]
        decomp = lv['kind'] == 'DecompositionDecl'
        ip = self.ip
        t = ty(lv)
        isref = t.rstrip().endswith('&')
        sc = ip.is_scalar(t)
        if decomp:
            binds = [x for x in lv['inner'] if x.get('kind') == 'BindingDecl']
            slots = [self.new(b['id'], 'sref', ty(b)) for b in binds]
        else:
            s = self.new(lv['id'], 'sref' if (sc and isref) else 'val', t)
        body = self.stmt(inner[7])

        def run(env):
            if init is not None:
                init(env)
            r0 = rexpr(env)
            if isinstance(r0, MapV):
                seq = len(r0.k)
            elif isinstance(r0, Vec):
                seq = None
                if getattr(r0.d, 'sym_get', None) is not None:
                    raise Unsupported('range-for over symbolic vector')
            else:
                raise Unsupported('range-for over %r' % type(r0))
            i = 0
            while True:
                ip.step()
                if i >= (seq if seq is not None else len(r0.d)):
                    break
                if seq is not None:
                    x = Obj('std::pair', {'first': r0.k[i], 'second': r0.v[i]})
                else:
                    x = r0.d[i]
                if decomp:
                    if isinstance(x, Obj):
                        ks = list(x.f)
                        if x.cls == 'std::pair' and seq is not None:
                            env[slots[0]] = Ref(([r0.k[i]], 0))
                            env[slots[1]] = Ref((r0.v, i))
                        else:
                            for sl, kk in zip(slots, ks):
                                env[sl] = Ref((x.f, kk))
                    else:
                        for j, sl in enumerate(slots):
                            env[sl] = Ref((x.d, j))
                elif sc and isref:
                    env[s] = Ref((r0.d, i))
                else:
                    env[s] = x if (sc or isref) else cp(x)
                r = body(env)
                if r is not None:
                    if r is BRK:
                        break
                    if r is not CNT:
                        return r
                i += 1
        return run

    def s_BreakStmt(self, n): return lambda env: BRK
    def s_ContinueStmt(self, n): return lambda env: CNT

    def s_ReturnStmt(self, n):
        inner = n.get('inner')
        if not inner:
            r0 = Ret(None)
            return lambda env: r0
        if self.retref:
            lv = self.lv(inner[0])
            return lambda env: Ret(lv(env))
        e = self.rv(inner[0])
        if self.rettype.endswith('&'):
            return lambda env: Ret(e(env))
        return lambda env: Ret(cp(e(env)))

    def s_SwitchStmt(self, n):
        inner = list(n['inner'])
        pre = None
        if n.get('hasInit') or n.get('hasVar'):
            pre = self.stmt(inner.pop(0))
        c = self.rv(inner[0])
        items = []          # (labels or None, stmt)

        def flat(x, labels):
            k = x['kind']
            if k == 'CaseStmt':
                ins = x['inner']
                v = self.constval(ins[0])
                flat(ins[-1], labels + [v])
            elif k == 'DefaultStmt':
                flat(x['inner'][-1], labels + ['default'])
            else:
                items.append((labels, self.stmt(x)))
        for x in inner[1].get('inner', ()):
            flat(x, [])
        ip = self.ip

        def run(env):
            if pre is not None:
                pre(env)
            v = c(env)
            start = None
            for i, (ls, s) in enumerate(items):
                for l in ls:
                    if l != 'default' and ip.eq(v, l):
                        start = i
                        break
                if start is not None:
                    break
            if start is None:
                for i, (ls, s) in enumerate(items):
                    if 'default' in ls:
                        start = i
                        break
            if start is None:
                return None
            for ls, s in items[start:]:
                r = s(env)
                if r is not None:
                    if r is BRK:
                        return None
                    return r
        return run

    def constval(self, n):
        if 'value' in n and n['kind'] == 'ConstantExpr':
            return int(n['value'])
        return self.rv(n)([None] * 8)

    def s_CXXTryStmt(self, n):
        body = self.stmt(n['inner'][0])
        hs = []
        for h in n['inner'][1:]:
            ins = [x for x in h.get('inner', ())]
            v = [x for x in ins if x.get('kind') == 'VarDecl']
            if v:
                self.new(v[0]['id'], 'val')
            hs.append(self.stmt(ins[-1]))

        def run(env):
            try:
                return body(env)
            except CppThrow:
                return hs[0](env)
        return run

    # ---------------------------------------------------------- expressions
    def cond(self, n):
        e = self.rv(n)
        ip = self.ip

        def c(env):
            v = e(env)
            if v is True or v is False:
                return v
            return ip.tobool(v)
        return c

    def rv(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n)

    def lv(self, n):
        """scalar lvalue -> Ref"""
        k = n['kind']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            return m(n)
        # fall back: a prvalue bound to a const reference
        e = self.rv(n)

        def f(env):
            v = e(env)
            return v if isinstance(v, Ref) else Ref(([v], 0))
        return f

    def _pass(self, n):
        return self.rv(n['inner'][0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = _pass
    e_MaterializeTemporaryExpr = _pass

    def e_ConstantExpr(self, n):
        if n.get('value') is not None and n['inner'][0]['kind'] != 'FloatingLiteral' and re.fullmatch(r'-?\d+', n['value']):
            v = int(n['value'])
            return lambda env: v
        return self.rv(n['inner'][0])

    def _lpass(self, n):
        return self.lv(n['inner'][0])
    l_ParenExpr = l_ExprWithCleanups = l_CXXBindTemporaryExpr = _lpass

    def l_MaterializeTemporaryExpr(self, n):
        e = self.rv(n['inner'][0])
        return lambda env: Ref(([e(env)], 0))

    def l_CXXConstCastExpr(self, n): return self.lv(n['inner'][0])

    def e_IntegerLiteral(self, n):
        v = int(n['value'])
        return lambda env: v

    def e_CharacterLiteral(self, n):
        v = int(n['value'])
        return lambda env: v

    def e_FloatingLiteral(self, n):
        x = float(n['value'])
        if self.ip.mode == 'sym':
            if abs(x - math.pi) < 1e-15:
                return lambda env: PI
            v = Fraction(repr(x))
        else:
            v = x
        return lambda env: v

    def e_CXXBoolLiteralExpr(self, n):
        v = bool(n['value'])
        return lambda env: v

    def e_CXXNullPtrLiteralExpr(self, n): return lambda env: None
    def e_GNUNullExpr(self, n): return lambda env: None

    def e_StringLiteral(self, n):
        v = n.get('value', '')
        return lambda env: v

    def e_ImplicitValueInitExpr(self, n):
        t = ty(n); ip = self.ip
        return lambda env: ip.default(t, True)

    def e_CXXScalarValueInitExpr(self, n):
        t = ty(n); ip = self.ip
        return lambda env: ip.default(t, True)

    def e_CXXThisExpr(self, n): return lambda env: env[0]

    # ---- casts
    def cast(self, n):
        ck = n.get('castKind')
        sub = n['inner'][0]
        ip = self.ip
        if ck == 'LValueToRValue':
            return self.load(sub)
        if ck == 'BitCast' and ty(sub).replace('const ', '') == 'char *':
            e = self.rv(sub)
            rt = ip.canon(ty(n))[:-1].strip()

            def raw(env):
                v = e(env)
                return ip.default(rt) if type(v).__name__ == 'RawMem' else v
            return raw
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'BitCast', 'BuiltinFnToFnPtr', 'BaseToDerived', 'FloatingCast'):
            return self.rv(sub)
        if ck == 'ArrayToPointerDecay':
            e = self.rv(sub)

            def f(env):
                v = e(env)
                return Ptr(v, 0) if isinstance(v, Vec) else v
            return f
        if ck == 'NullToPointer':
            return lambda env: None
        if ck == 'IntegralToFloating':
            e = self.rv(sub)
            if ip.mode == 'sym':
                def f(env):
                    v = e(env)
                    if type(v) is int:
                        return Fraction(v)
                    if isinstance(v, SI):
                        return si2t(v)
                    if isinstance(v, bool):
                        return Fraction(int(v))
                    return v
            else:
                def f(env):
                    v = e(env)
                    return float(v) if isinstance(v, (int, bool)) else v
            return f
        if ck == 'IntegralCast':
            e = self.rv(sub)
            t = ip.canon(ty(n))
            if t not in SCALARS:
                return e

            def f(env):
                v = e(env)
                if type(v) is int and 0 <= v < 0x7fffffff:
                    return v
                if isinstance(v, bool):
                    return int(v)
                return ip.wrap(v, t)
            return f
        if ck == 'FloatingToIntegral':
            e = self.rv(sub)

            def f(env):
                v = e(env)
                if isinstance(v, T):
                    if v.op == 'const':
                        v = v.a
                    else:
                        return ip.ctx.trunc(v)
                if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                    return -(1 << 31)
                return int(v)
            return f
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            e = self.rv(sub)
            return lambda env: ip.tobool(e(env))
        if ck == 'ToVoid':
            return self.rv(sub)
        raise Unsupported('cast ' + str(ck))
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXFunctionalCastExpr = cast
    e_CXXReinterpretCastExpr = cast

    def l_ImplicitCastExpr(self, n):
        if n.get('castKind') == 'NoOp':
            return self.lv(n['inner'][0])
        if n.get('castKind') == 'LValueToRValue':
            e = self.rv(n)
            return lambda env: Ref(([e(env)], 0))
        e = self.rv(n)
        return lambda env: Ref(([e(env)], 0))
    l_CStyleCastExpr = l_CXXStaticCastExpr = l_ImplicitCastExpr

    def load(self, sub):
        k = sub['kind']
        while k in ('ParenExpr',):
            sub = sub['inner'][0]; k = sub['kind']
        if k == 'DeclRefExpr':
            return self.e_DeclRefExpr(sub)
        if k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr', 'MemberExpr', 'CallExpr', 'CXXMemberCallExpr'):
            return self.rv(sub)
        if k in ('ImplicitCastExpr',) and sub.get('castKind') == 'NoOp':
            return self.load(sub['inner'][0])
        lv = self.lv(sub)

        def f(env):
            c, i = lv(env)
            return c[i]
        return f

    # ---- names
    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        i = rd['id']
        s = self.slots.get(i)
        ip = self.ip
        if s is not None:
            slot, kind = s
            if kind == 'sref':
                def f(env):
                    c, k = env[slot]
                    return c[k]
                return f
            return lambda env: env[slot]
        k = rd['kind']
        if k == 'EnumConstantDecl':
            v = self.enumval(i, rd)
            return lambda env: v
        if k in FUNK:
            return lambda env: ('fn', rd)
        if k == 'VarDecl':
            cell = []

            def f(env):
                if not cell:
                    cell.append(self.globalval(i, rd))
                return cell[0]
            return f
        raise Unsupported('reference to %s %s' % (k, rd.get('name')))

    def l_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        s = self.slots.get(rd['id'])
        if s is not None:
            slot, kind = s
            if kind == 'sref':
                return lambda env: env[slot]
            return lambda env: Ref((env, slot))
        e = self.e_DeclRefExpr(n)
        return lambda env: Ref(([e(env)], 0))

    def enumval(self, i, rd):
        d = self.u.byid.get(i)
        # find parent enum to count
        for u in [self.u] + list(self.ip.p.units.values()):
            for e in u.byid.values():
                if e['kind'] == 'EnumDecl':
                    v = -1
                    for c in e.get('inner', ()):
                        if c.get('kind') != 'EnumConstantDecl':
                            continue
                        ins = [x for x in c.get('inner', ()) if x.get('kind', '').endswith(EXPRK)]
                        v += 1
                        if ins:
                            v = Comp(self.ip, u).constval(ins[0])
                        if (u is self.u and c['id'] == i) or (d is None and c['name'] == rd['name']):
                            return v
        raise Unsupported('enum constant ' + rd['name'])

    def globalval(self, i, rd):
        ip = self.ip
        u = self.u
        d = u.byid.get(i)
        nm = rd['name']
        if d is not None and not any(x.get('kind', '').endswith(EXPRK) for x in d.get('inner', ())):
            d = None
        if d is None:
            for uu in [u] + list(ip.p.units.values()):
                for x in uu.byid.values():
                    if x['kind'] == 'VarDecl' and x.get('name') == nm and \
                            any(y.get('kind', '').endswith(EXPRK) for y in x.get('inner', ())) and x.get('type', {}).get('qualType', '').replace('const ', '') == rd['type']['qualType'].replace('const ', ''):
                        d = x; u = uu
                        break
                if d is not None:
                    break
        if d is None:
            d, u = ip.p.extra(self.u, nm, ('VarDecl',))
        if d is None:
            raise Unsupported('global ' + nm)
        key = (u.name, d['id'])
        if key in ip.globals:
            return ip.globals[key]
        init = [x for x in d.get('inner', ()) if x.get('kind', '').endswith(EXPRK)][0]
        c = Comp(ip, u)
        e = c.rv(init)
        v = e([None] * max(64, c.n + 1))
        if isinstance(v, Fraction) and ip.mode == 'float':
            v = float(v)
        ip.globals[key] = v
        return v

    # ---- members
    def e_MemberExpr(self, n):
        base = self.rv(n['inner'][0])
        nm = n['name']
        ip = self.ip
        if n['inner'][0].get('kind') == 'CXXOperatorCallExpr' or True:
            def f(env):
                o = base(env)
                if isinstance(o, Obj):
                    v = o.f.get(nm, NotImplemented)
                    if v is NotImplemented:
                        raise Unsupported('member %s of %s' % (nm, o.cls))
                    return v
                o2 = ip_deref(ip, o)
                return o2.f[nm]
            return f

    def l_MemberExpr(self, n):
        base = self.rv(n['inner'][0])
        nm = n['name']
        ip = self.ip

        def f(env):
            o = base(env)
            if not isinstance(o, Obj):
                o = ip_deref(ip, o)
            return Ref((o.f, nm))
        return f

    def e_ArraySubscriptExpr(self, n):
        b = self.rv(n['inner'][0])
        i = self.rv(n['inner'][1])
        ip = self.ip

        def f(env):
            p = b(env)
            j = i(env)
            if isinstance(p, Ptr):
                return ip.elem(p.v, p.o + j if p.o else j)
            if isinstance(p, Vec):
                return ip.elem(p, j)
            if isinstance(p, It):
                return ip.elem(p.v, p.i + j)
            if isinstance(p, PRef):
                c, k = pref_at(ip, p, j)
                v = c[k]
                if isinstance(v, Uninit):
                    ip.ub('read of an uninitialised value')
                return v
            raise Unsupported('subscript of %r' % (p,))
        return f

    def l_ArraySubscriptExpr(self, n):
        b = self.rv(n['inner'][0])
        i = self.rv(n['inner'][1])
        ip = self.ip

        def f(env):
            p = b(env)
            j = i(env)
            if isinstance(p, Ptr):
                return ip.elem_ref(p.v, p.o + j if p.o else j)
            if isinstance(p, Vec):
                return ip.elem_ref(p, j)
            if isinstance(p, PRef):
                return pref_at(ip, p, j)
            raise Unsupported('subscript of %r' % (p,))
        return f

    # ---- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        ip = self.ip
        t = ip.canon(ty(n))
        if op in ('++', '--'):
            lv = self.lv(sub)
            d = 1 if op == '++' else -1
            post = n.get('isPostfix')

            def f(env):
                c, k = lv(env)
                v = c[k]
                if isinstance(v, Ptr):
                    w = Ptr(v.v, v.o + d)
                else:
                    w = v + d
                    if type(w) is int and w < 0 and t in UNSIGNED:
                        w = ip.wrap(w, t)
                c[k] = w
                return v if post else w
            return f
        if op == '-':
            e = self.rv(sub)

            def f(env):
                v = e(env)
                if type(v) is int and t in UNSIGNED:
                    return ip.wrap(-v, t)
                return -v
            return f
        if op == '+':
            return self.rv(sub)
        if op == '!':
            c = self.cond(sub)
            return lambda env: not c(env)
        if op == '~':
            e = self.rv(sub)
            return lambda env: ip.wrap(~e(env), t)
        if op == '*':
            e = self.rv(sub)
            return lambda env: ip_deref(ip, e(env))
        if op == '&':
            st = ty(sub)
            if ip.is_scalar(st):
                lv = self.lv(sub)

                def f(env):
                    r = lv(env)
                    return PRef(r)
                return f
            return self.rv(sub)
        raise Unsupported('unary ' + op)

    def l_UnaryOperator(self, n):
        op = n['opcode']
        if op == '*':
            e = self.rv(n['inner'][0])
            ip = self.ip

            def f(env):
                p = e(env)
                if isinstance(p, Ptr):
                    return ip.elem_ref(p.v, p.o)
                if isinstance(p, PRef):
                    return p.r
                raise Unsupported('deref lvalue')
            return f
        if op in ('++', '--') and not n.get('isPostfix'):
            e = self.rv(n)
            lv = self.lv(n['inner'][0])

            def f(env):
                e(env)
                return lv(env)
            return f
        e = self.rv(n)
        return lambda env: Ref(([e(env)], 0))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        ip = self.ip
        A, Bn = n['inner']
        if op == '=':
            r = self.rv(Bn)
            k = A['kind']
            if k == 'DeclRefExpr':
                s = self.slots.get(A['referencedDecl']['id'])
                if s is not None and s[1] == 'val' and ip.is_scalar(ty(A)):
                    slot = s[0]

                    def f(env):
                        v = r(env)
                        env[slot] = v
                        return v
                    return f
            lv = self.lv(A)

            def f(env):
                v = r(env)
                c, kk = lv(env)
                c[kk] = v
                return v
            return f
        if op == ',':
            a = self.rv(A); b = self.rv(Bn)

            def f(env):
                a(env)
                return b(env)
            return f
        if op == '&&':
            a = self.cond(A); b = self.cond(Bn)
            return lambda env: a(env) and b(env)
        if op == '||':
            a = self.cond(A); b = self.cond(Bn)
            return lambda env: a(env) or b(env)
        a = self.rv(A); b = self.rv(Bn)
        return self.binop(op, a, b, ip.canon(ty(n)), ip.canon(ty(A)))

    def l_BinaryOperator(self, n):
        if n['opcode'] == '=':
            e = self.rv(n)
            lv = self.lv(n['inner'][0])

            def f(env):
                e(env)
                return lv(env)
            return f
        e = self.rv(n)
        return lambda env: Ref(([e(env)], 0))

    def binop(self, op, a, b, t, ta):
        ip = self.ip
        if op in ('+', '-'):
            isptr = t.endswith('*')
            uns = t in UNSIGNED
            intt = t in INTS
            if isptr or ta.endswith('*'):
                sg = 1 if op == '+' else -1

                def f(env):
                    x = a(env); y = b(env)
                    if isinstance(x, Ptr) and isinstance(y, Ptr):
                        return x.o - y.o
                    if isinstance(x, Ptr):
                        return Ptr(x.v, x.o + sg * y)
                    if isinstance(y, Ptr):
                        return Ptr(y.v, y.o + x)
                    raise Unsupported('pointer arithmetic')
                return f
            if op == '+':
                if intt:
                    def f(env):
                        x = a(env) + b(env)
                        if type(x) is int and -0x7fffffff < x < 0x7fffffff and (x >= 0 or not uns):
                            return x
                        return ip.wrap(x, t)
                    return f

                def f(env):
                    return a(env) + b(env)
                return f
            if intt:
                def f(env):
                    x = a(env) - b(env)
                    if type(x) is int and -0x7fffffff < x < 0x7fffffff and (x >= 0 or not uns):
                        return x
                    return ip.wrap(x, t)
                return f

            def f(env):
                return a(env) - b(env)
            return f
        if op == '*':
            if t in INTS:
                return lambda env: ip.wrap(a(env) * b(env), t)
            return lambda env: a(env) * b(env)
        if op == '/':
            if t in FLOATS:
                return lambda env: ip.fdiv(a(env), b(env))
            return lambda env: ip.idiv(a(env), b(env))
        if op == '%':
            return lambda env: ip.imod(a(env), b(env))
        if op in ('<', '>', '<=', '>='):
            if op == '<':
                def f(env):
                    x = a(env); y = b(env)
                    if type(x) is int and type(y) is int:
                        return x < y
                    return ip_cmp(ip, x, y, 'lt')
            elif op == '>':
                def f(env):
                    x = a(env); y = b(env)
                    if type(x) is int and type(y) is int:
                        return x > y
                    return ip_cmp(ip, y, x, 'lt')
            elif op == '<=':
                def f(env):
                    x = a(env); y = b(env)
                    if type(x) is int and type(y) is int:
                        return x <= y
                    return ip_cmp(ip, x, y, 'le')
            else:
                def f(env):
                    x = a(env); y = b(env)
                    if type(x) is int and type(y) is int:
                        return x >= y
                    return ip_cmp(ip, y, x, 'le')
            return f
        if op in ('==', '!='):
            neg = op == '!='

            def f(env):
                x = a(env); y = b(env)
                r = ip_eq(ip, x, y)
                return (not r) if neg else r
            return f
        if op in ('&', '|', '^', '<<', '>>'):
            def f(env):
                x = a(env); y = b(env)
                if not isinstance(x, int) or not isinstance(y, int):
                    if op == '>>' and isinstance(x, SI) and isinstance(y, int):
                        return ip.idiv(x, 1 << y)
                    if op == '<<' and isinstance(x, SI) and isinstance(y, int):
                        return x * (1 << y)
                    raise Unsupported('symbolic bit operation')
                if op == '&': return x & y
                if op == '|': return x | y
                if op == '^': return x ^ y
                if op == '<<': return ip.wrap(x << y, t)
                return x >> y
            return f
        raise Unsupported('binary ' + op)

    def e_CompoundAssignOperator(self, n):
        ip = self.ip
        op = n['opcode'][:-1]
        A, Bn = n['inner']
        lv = self.lv(A)
        r = self.rv(Bn)
        t = ip.canon(ty(A))
        # computation type: double if either is double
        ct = n.get('computeResultType', {})
        ctn = ip.canon(ct.get('desugaredQualType', ct.get('qualType', t)))
        cell = [None, None]
        f2 = self.binop(op, lambda env: cell[0], lambda env: cell[1], ctn, ctn)

        def f(env):
            y = r(env)
            c, k = lv(env)
            x = c[k]
            if ctn in FLOATS and type(x) is int:
                x = Fraction(x) if ip.mode == 'sym' else float(x)
            cell[0] = x; cell[1] = y
            v = f2(env)
            if t in INTS and ctn in FLOATS:
                v = int(v) if not isinstance(v, T) else ip.ctx.trunc(v)
            c[k] = v
            return v
        return f

    def l_CompoundAssignOperator(self, n):
        e = self.rv(n)
        lv = self.lv(n['inner'][0])

        def f(env):
            e(env)
            return lv(env)
        return f

    def e_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        a = self.rv(n['inner'][1]); b = self.rv(n['inner'][2])
        return lambda env: a(env) if c(env) else b(env)

    def l_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        a = self.lv(n['inner'][1]); b = self.lv(n['inner'][2])
        return lambda env: a(env) if c(env) else b(env)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = self.ip.canon(n.get('argType', {}).get('qualType', 'double'))
        v = {'double': 8, 'int': 4, 'float': 4}.get(t, 8)
        return lambda env: v

    def e_CXXThrowExpr(self, n):
        t = 'std::exception'
        x = n
        while x.get('inner'):
            x = x['inner'][0]
            if x['kind'] in ('CXXFunctionalCastExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                t = self.ip.canon(ty(x))
                break

        def f(env):
            raise CppThrow(t)
        return f

    # ---- lambda
    def e_LambdaExpr(self, n):
        ip = self.ip
        rec = [c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl'][0]
        op = [c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
        if not op:
            ft = [c for c in rec['inner'] if c.get('kind') == 'FunctionTemplateDecl']
            insts = [c for x in ft for c in x.get('inner', ()) if c.get('kind') == 'CXXMethodDecl' and any(y.get('kind') == 'TemplateArgument' for y in c.get('inner', ()))]
            if not insts:
                raise Unsupported('generic lambda')
            op = insts[:1]
        op = op[0]
        params = []
        for c in op.get('inner', ()):
            if c.get('kind') == 'ParmVarDecl':
                t = ty(c)
                if t.rstrip().endswith('&') and ip.is_scalar(t):
                    kind = 'sref'
                elif t.rstrip().endswith('&'):
                    kind = 'ref'
                else:
                    kind = 'val'
                params.append((self.new(c['id'], 'sref' if kind == 'sref' else 'val', t), kind))
        body = [c for c in op.get('inner', ()) if c.get('kind') == 'CompoundStmt']
        if not body:
            body = [c for c in n['inner'] if c.get('kind') == 'CompoundStmt']
        old = self.retref, getattr(self, 'rettype', 'void')
        ft = op['type']['qualType']
        rt = ft[:ft.index('(')].strip()
        if rt == 'auto' and '->' in ft:
            rt = ft[ft.index('->') + 2:].strip()
        self.rettype = rt
        self.retref = rt.endswith('&') and ip.is_scalar(rt)
        b = self.stmt(body[0])
        self.retref, self.rettype = old
        # captures by copy: remember values of by-copy captured scalars is not modelled (shared frame)

        def make(env):
            def call(args):
                saved = [(s, env[s]) for s, k in params]
                for (s, k), a in zip(params, args):
                    if k == 'sref' and not isinstance(a, Ref):
                        a = Ref(([a], 0))
                    if k != 'sref' and isinstance(a, Ref):
                        a = a[0][a[1]]
                    env[s] = cp(a) if k == 'val' else a
                r = b(env)
                for s, v in saved:
                    env[s] = v
                return r.v if isinstance(r, Ret) else None
            return Lam(call, env)
        return make

    # ---- init lists
    def e_InitListExpr(self, n):
        ip = self.ip
        t = ip.canon(ty(n))
        elems = [self.rv(c) for c in n.get('inner', ()) if c.get('kind')]
        if 'array_filler' in n:
            elems = [self.rv(c) for c in n['array_filler'] if c.get('kind') and c['kind'] != 'ImplicitValueInitExpr']
        if t.endswith(']'):
            def f(env):
                v = ip.default(t, True)
                for i, e in enumerate(elems):
                    x = e(env)
                    v.d[i] = cp(x)
                return v
            return f
        if t.startswith('std::array<') or t.startswith('array<'):
            def f(env):
                v = ip.default(t, True)
                xs = [e(env) for e in elems]
                if len(xs) == 1 and isinstance(xs[0], Vec):
                    xs = xs[0].d
                for i, x in enumerate(xs):
                    v.d[i] = cp(x)
                return v
            return f
        if ip.is_scalar(t):
            if not elems:
                return lambda env: ip.default(t, True)
            return elems[0]
        if ip.cls(t):
            fs = [fd['name'] for u, fd in ip.fields(t)]

            def f(env):
                o = Obj(t.replace(' ', ''), {})
                vals = [e(env) for e in elems]
                for i, (u, fd) in enumerate(ip.fields(t)):
                    if i < len(vals) and vals[i] is not DEFAULT_ARG:
                        o.f[fd['name']] = cp(vals[i])
                    else:
                        o.f[fd['name']] = ip.field_init(u, fd, True)
                return o
            return f
        return lambda env: Vec([cp(e(env)) for e in elems])

    def e_CXXStdInitializerListExpr(self, n):
        return self.rv(n['inner'][0])

    def e_CXXDefaultInitExpr(self, n):
        return lambda env: DEFAULT_ARG      # the enclosing initializer list puts the member's own initializer here

    def e_CXXDefaultArgExpr(self, n):
        return lambda env: DEFAULT_ARG

    # ---- construction
    def e_CXXConstructExpr(self, n):
        ip = self.ip
        t = ip.canon(ty(n))
        ct = n.get('ctorType', {}).get('qualType', '')
        inner = n.get('inner', ())
        return self.ctor(t, ct, inner, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def ctor(self, t, ct, inner, n):
        ip = self.ip
        if t.startswith(('std::vector<', 'std::map<', 'std::pair<', 'std::array<', '__gnu_cxx::', 'std::_Rb', 'std::basic_string',
                         'std::reverse_iterator', 'std::initializer_list', 'std::function', 'pair<', 'std::tuple')):
            args = [self.rv(c) for c in inner if c.get('kind') and c['kind'] != 'CXXDefaultArgExpr']
            return stdlib.construct(self, t, ct, args)
        if t.startswith('std::'):
            return lambda env: None
        f = ip.find_ctor(t, ct)
        if f is None and len(list(inner)) == 1 and norm_sig(ct).endswith(('&)', '&&)')):
            # copy / move
            e = self.rv(inner[0])
            return lambda env: cp(e(env))
        if f is None:
            args = [self.rv(c) for c in inner if c.get('kind')]
            if ip.cls(t) is None:
                if t.endswith(']'):
                    return lambda env: ip.default(t, True)
                raise Unsupported('constructor of ' + t)
            return lambda env: ip.construct(t, ct, [a(env) for a in args])
        args = self.args(f, inner, f.node)
        return lambda env: ip.construct(t, ct, [a(env) for a in args])

    def e_CXXNewExpr(self, n):
        ip = self.ip
        inner = [c for c in n.get('inner', ()) if c.get('kind', '').endswith(EXPRK)]
        if n.get('isArray'):
            raise Unsupported('new[]')
        e = self.rv(inner[0])
        return e

    def e_CXXDeleteExpr(self, n):
        return lambda env: None

    # ---- calls
    def args(self, f, nodes, fnode):
        """argument closures according to f's parameter kinds"""
        out = []
        pd = [c for c in fnode.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        nodes = [x for x in nodes if x.get('kind')]
        for i, (slot, kind) in enumerate(f.params):
            if i < len(nodes) and nodes[i]['kind'] != 'CXXDefaultArgExpr':
                out.append(self.lv(nodes[i]) if kind == 'sref' else self.rv(nodes[i]))
            else:
                e = self.default_arg(f, i)
                out.append(e)
        return out

    def default_arg(self, f, i):
        ip = self.ip
        # find a declaration (any unit) with the same mangled name carrying the default
        cell = []

        def get(env):
            if not cell:
                m = f.node.get('mangledName')
                for u in ip.p.units.values():
                    for x in u.byid.values():
                        if x['kind'] in FUNK and x.get('mangledName') == m:
                            ps = [c for c in x.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
                            ins = [c for c in ps[i].get('inner', ()) if c.get('kind', '').endswith(EXPRK)]
                            if ins:
                                c2 = Comp(ip, u)
                                e = c2.rv(ins[0])
                                cell.append(e([None] * max(16, c2.n)))
                                break
                    if cell:
                        break
                if not cell:
                    raise Unsupported('default argument of ' + f.name)
            return cp(cell[0])
        return get

    def target(self, rd):
        """definition of a referenced LNLib function, or None"""
        ip = self.ip
        d = self.u.byid.get(rd['id'])
        if d is not None and d.get('mangledName'):
            f = ip.fn(d['mangledName'])
            if f is not None:
                return f
            if d.get('isImplicit') or d.get('explicitlyDefaulted'):
                return None
        return None

    def callee(self, n):
        d = n
        while d['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            d = d['inner'][0]
        return d

    def e_CallExpr(self, n):
        ip = self.ip
        d = self.callee(n['inner'][0])
        argn = n['inner'][1:]
        if d['kind'] != 'DeclRefExpr':
            if d['kind'] == 'MemberExpr':        # static member through object
                rd = {'id': d.get('referencedMemberDecl'), 'name': d['name']}
                f = self.target(rd)
                if f is not None:
                    args = self.args(f, argn, f.node)
                    return self.mkcall(f, args)
            # call of a lambda / std::function value
            e = self.rv(d)
            args = [self.rv(a) for a in argn]
            return lambda env: e(env).f([a(env) for a in args])
        rd = d['referencedDecl']
        f = self.target(rd)
        if f is None:
            s = self.slots.get(rd['id'])
            if s is not None:
                e = self.rv(d)
                args = [self.rv(a) for a in argn]
                return lambda env: e(env).f([a(env) for a in args])
            h = stdlib.function(self, rd['name'], n, argn)
            if h is not None:
                return h
            f = self.external(rd)
            if f is None:
                raise Unsupported('call of ' + rd['name'])
        args = self.args(f, argn, f.node)
        return self.mkcall(f, args)

    def external(self, rd):
        """a helper outside namespace LNLib (file-static or anonymous namespace), or cross-unit by name/type"""
        ip = self.ip
        nm = rd['name']
        sig = norm_sig(rd.get('type', {}).get('qualType', ''))
        c = [m for m, (u, x) in ip.p.defs.items() if x['name'] == nm and norm_sig(x['type']['qualType']) == sig]
        if len(c) == 1:
            return ip.fn(c[0])
        r = ip.p.extra(self.u, nm, FUNK, sig)
        if r[0] is None:
            return None
        m = r[0]['mangledName']
        return ip.fn(m)

    def mkcall(self, f, args):
        ip = self.ip
        na = len(args)
        if f.name is None or True:
            def call(env):
                r = ip.call(f, [a(env) for a in args])
                if type(r) is Ref:
                    return r[0][r[1]]
                return r
            return call

    def l_CallExpr(self, n):
        ip = self.ip
        d = self.callee(n['inner'][0])
        if d['kind'] == 'DeclRefExpr':
            f = self.target(d['referencedDecl'])
            if f is not None and f.retref:
                args = self.args(f, n['inner'][1:], f.node)
                return lambda env: ip.call(f, [a(env) for a in args])
        e = self.rv(n)
        return lambda env: Ref(([e(env)], 0))

    def method(self, n):
        m = n['inner'][0]
        while m['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            m = m['inner'][0]
        return m

    def _mcall(self, n, want_ref):
        ip = self.ip
        m = self.method(n)
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + m['kind'])
        argn = n['inner'][1:]
        base = m['inner'][0]
        bt = ip.canon(ty(base))
        if bt.endswith('*'):
            bt = ip.canon(bt[:-1])
        f = self.target({'id': m.get('referencedMemberDecl')})
        d = self.u.byid.get(m.get('referencedMemberDecl'))
        virt = bool(d is not None and d.get('virtual'))
        if f is None and d is None and ip.cls(bt) is not None:
            # reference from an extra dump: resolve by class, name and arity
            qs = [mm for mm in ip.p.byqual.get(bt.replace(' ', '') + '::' + m['name'], ())]
            qs = [mm for mm in qs if sum(1 for c in ip.p.defs[mm][1].get('inner', ()) if c.get('kind') == 'ParmVarDecl') == len(argn)]
            if qs:
                f = ip.fn(qs[0])
        if f is None and virt:
            be = self.rv(base)
            nm = m['name']
            args = [self.rv(a) for a in argn]

            def vcall(env):
                o = be(env)
                if not isinstance(o, Obj):
                    o = ip_deref(ip, o)
                g = ip.fn(ip.p.byqual[o.cls + '::' + nm][0])
                r = ip.call(g, [a(env) for a in args], o)
                return r[0][r[1]] if type(r) is Ref else r
            return vcall
        if f is None:
            if ip.cls(bt) is not None:
                raise Unsupported('method %s::%s without body' % (bt, m['name']))
            return stdlib.method(self, bt, m['name'], self.rv(base), argn, n, want_ref)
        be = self.rv(base)
        args = self.args(f, argn, f.node)
        nm = m['name']

        def call(env):
            o = be(env)
            if not isinstance(o, Obj):
                o = ip_deref(ip, o)
            g = f
            if virt and isinstance(o, Obj) and o.cls + '::' + nm in ip.p.byqual:
                g = ip.fn(ip.p.byqual[o.cls + '::' + nm][0])
            r = ip.call(g, [a(env) for a in args], o)
            if type(r) is Ref and not want_ref:
                return r[0][r[1]]
            return r
        return call

    def e_CXXMemberCallExpr(self, n):
        return self._mcall(n, False)

    def l_CXXMemberCallExpr(self, n):
        c = self._mcall(n, True)

        def f(env):
            r = c(env)
            return r if type(r) is Ref else Ref(([r], 0))
        return f

    def _opcall(self, n, want_ref):
        ip = self.ip
        d = self.callee(n['inner'][0])
        rd = d['referencedDecl']
        argn = n['inner'][1:]
        nm = rd['name']
        f = self.target(rd)
        if f is not None:
            isam = rd['kind'] == 'CXXMethodDecl'
            if isam and len(argn) == len(f.params) + 1:
                be = self.rv(argn[0])
                args = self.args(f, argn[1:], f.node)
                virt = True

                def call(env):
                    o = be(env)
                    if isinstance(o, Lam):
                        return o.f([a(env) for a in args])
                    if not isinstance(o, Obj):
                        o = ip_deref(ip, o)
                    g = f
                    if o.cls + '::' + nm in ip.p.byqual and ip.bases(o.cls):
                        g = ip.fn(ip.p.byqual[o.cls + '::' + nm][0])
                    r = ip.call(g, [a(env) for a in args], o)
                    if type(r) is Ref and not want_ref:
                        return r[0][r[1]]
                    return r
                return call
            args = self.args(f, argn, f.node)

            def call(env):
                r = ip.call(f, [a(env) for a in args])
                if type(r) is Ref and not want_ref:
                    return r[0][r[1]]
                return r
            return call
        t0 = ip.canon(ty(argn[0]))
        if nm == 'operator()':
            e = self.rv(argn[0])
            args = [(self.lv(a) if (a.get('valueCategory') == 'lvalue' and ip.is_scalar(ty(a))) else self.rv(a)) for a in argn[1:]]

            def call(env):
                o = e(env)
                if isinstance(o, Obj):
                    g = ip.fn(ip.p.byqual[o.cls + '::operator()'][0])
                    aa = []
                    for (s, k), a in zip(g.params, args):
                        v = a(env)
                        if k == 'sref' and type(v) is not Ref:
                            v = Ref(([v], 0))
                        elif k != 'sref' and type(v) is Ref:
                            v = v[0][v[1]]
                        aa.append(v)
                    return ip.call(g, aa, o)
                return o.f([a(env) for a in args])
            return call
        if ip.cls(t0) is not None and nm == 'operator=':
            a = self.rv(argn[0]); b = self.rv(argn[1])

            def call(env):
                v = b(env)
                o = a(env)
                if o is not v:
                    o.assign(v)
                return o
            return call
        if d is not None and f is None and ip.cls(t0) is not None:
            # extra-dump references: LNLib operator resolved by name and type
            g = self.external(rd) if rd['kind'] == 'FunctionDecl' else None
            if g is None:
                qs = ip.p.byqual.get(t0.replace(' ', '') + '::' + nm, ())
                sig = norm_sig(rd.get('type', {}).get('qualType', ''))
                qs = [m for m in qs if norm_sig(ip.p.defs[m][1]['type']['qualType']) == sig] or \
                     [m for m in qs if sum(1 for c in ip.p.defs[m][1].get('inner', ()) if c.get('kind') == 'ParmVarDecl') == len(argn) - 1]
                if qs:
                    g = ip.fn(qs[0])
                    be = self.rv(argn[0])
                    args = self.args(g, argn[1:], g.node)

                    def call(env):
                        r = ip.call(g, [a(env) for a in args], be(env))
                        if type(r) is Ref and not want_ref:
                            return r[0][r[1]]
                        return r
                    return call
                raise Unsupported('operator %s on %s' % (nm, t0))
            args = self.args(g, argn, g.node)

            def call(env):
                r = ip.call(g, [a(env) for a in args])
                if type(r) is Ref and not want_ref:
                    return r[0][r[1]]
                return r
            return call
        return stdlib.operator(self, nm, t0, argn, n, want_ref)

    def e_CXXOperatorCallExpr(self, n):
        return self._opcall(n, False)

    def l_CXXOperatorCallExpr(self, n):
        c = self._opcall(n, True)

        def f(env):
            r = c(env)
            return r if type(r) is Ref else Ref(([r], 0))
        return f


class _DA:
    pass


DEFAULT_ARG = _DA()


class PRef:
    """pointer to a scalar lvalue"""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


def pref_at(ip, p, j):
    """p[j] for a pointer to an array element"""
    c, k = p.r
    if not isinstance(c, list) or type(k) is not int or type(j) is not int:
        raise Unsupported('subscript of a pointer to a scalar')
    if not 0 <= k + j < len(c):
        ip.ub('index %d out of range [0,%d)' % (k + j, len(c)))
    return Ref((c, k + j))


class LoopInfo:
    __slots__ = ('comp', 'node', 'init', 'condn', 'incn', 'bodyn', 'cond', 'inc', 'body', 'cache')

    def __init__(self, comp, node, init, condn, incn, bodyn, cond, inc, body):
        self.comp = comp
        self.node = node
        self.init = init
        self.condn = condn
        self.incn = incn
        self.bodyn = bodyn
        self.cond = cond
        self.inc = inc
        self.body = body
        self.cache = {}


def is_fresh(e):
    k = e
    while k['kind'] in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'):
        k = k['inner'][0]
    return k['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr', 'LambdaExpr')


def ip_deref(ip, p):
    if isinstance(p, Obj):
        return p
    if isinstance(p, Ptr):
        return ip.elem(p.v, p.o)
    if isinstance(p, It):
        return ip.elem(p.v, p.pos)
    if isinstance(p, MIt):
        return Obj('std::pair', {'first': p.m.k[p.i], 'second': p.m.v[p.i]})
    if isinstance(p, PRef):
        return p.r[0][p.r[1]]
    if p is None:
        ip.ub('null pointer dereference')
    raise Unsupported('dereference of %r' % (p,))


def ip_cmp(ip, x, y, op):
    if isinstance(x, (T, SI)) or isinstance(y, (T, SI)):
        return ip.ctx.decide(rel(op, x, y))
    if isinstance(x, Uninit) or isinstance(y, Uninit):
        ip.ub('read of an uninitialised value')
    if isinstance(x, Ptr):
        x, y = x.o, y.o
    return x < y if op == 'lt' else x <= y


def ip_eq(ip, x, y):
    if isinstance(x, (T, SI)) or isinstance(y, (T, SI)):
        if x is None or y is None:
            return False
        return ip.ctx.decide(rel('eq', x, y))
    if isinstance(x, Uninit) or isinstance(y, Uninit):
        ip.ub('read of an uninitialised value')
    if x is None or y is None or isinstance(x, Obj) or isinstance(y, Obj):
        return x is y
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.v is y.v and x.o == y.o
    return x == y
