"""Contracts (executable models) of the std:: facilities LNLib uses.  They are assumed, not proved."""
import math
from fractions import Fraction
from terms import *
from values import *
import interp as I


def callf(ip, comp, f, args):
    if isinstance(f, Lam):
        return f.f(args)
    if isinstance(f, tuple) and f and f[0] == 'fn':
        g = comp.target(f[1]) or comp.external(f[1])
        return ip.call(g, args)
    if isinstance(f, Obj):
        g = ip.fn(ip.p.byqual[f.cls + '::operator()'][0])
        return ip.call(g, args, f)
    raise Unsupported('call of %r' % (f,))


def vlen(ip, v):
    n = getattr(v.d, 'sym_len', None)
    return n if n is not None else len(v.d)


def con(ip, v, what='vector'):
    """concrete-length vector required"""
    if getattr(v.d, 'sym_get', None) is not None:
        raise Unsupported('operation on a symbolic-length ' + what)
    return v.d


def need_int(ip, n):
    if isinstance(n, SI):
        raise Unsupported('symbolic size')
    if isinstance(n, Uninit):
        ip.ub('uninitialised size')
    if n < 0 or n > (1 << 40):
        raise CppThrow('std::length_error')
    if n > 2000000:
        raise Unsupported('very large vector')
    return n


def construct(comp, t, ct, args):
    ip = comp.ip
    if t.startswith(('std::vector<',)):
        et = I.targs(t)[0]

        def f(env):
            a = [x(env) for x in args]
            if not a:
                return Vec([], et)
            if len(a) == 1:
                if isinstance(a[0], Vec):
                    v = a[0].copy()
                    v.et = et
                    v.fixed = False
                    return v
                n = a[0]
                if isinstance(n, SI):
                    return ip.make_sym(n, et, ip.default(et, True))
                n = need_int(ip, n)
                if n and ip.is_scalar(et):
                    return Vec([ip.default(et, True)] * n, et)
                return Vec([ip.default(et, True) for _ in range(n)], et)
            if isinstance(a[0], It):
                if isinstance(a[0].i, SI) or isinstance(a[1].i, SI):
                    return ip.sym_slice(a[0], a[1], et)
                return Vec([cp(x) for x in rng_vals(ip, a[0], a[1])], et)
            if isinstance(a[0], Ptr):
                return Vec([cp(x) for x in a[0].v.d[a[0].o:a[1].o]], et)
            n = a[0]
            if isinstance(n, SI):
                return ip.make_sym(n, et, a[1])
            n = need_int(ip, n)
            v = conv(ip, et, a[1])
            if isinstance(v, AGG):
                return Vec([v.copy() for _ in range(n)], et)
            return Vec([v] * n, et)
        return f
    if t.startswith(('std::array<', 'std::map<')):
        def f(env):
            a = [x(env) for x in args]
            if not a:
                return ip.default(t)
            if isinstance(a[0], (Vec, MapV)) and type(a[0]) is type(ip.default(t)):
                return a[0].copy()
            raise Unsupported('construction of ' + t)
        return f
    if t.startswith(('std::pair<', 'pair<')):
        ta = I.targs(t)

        def f(env):
            a = [x(env) for x in args]
            if len(a) == 2:
                return Obj('std::pair', {'first': cp(conv(ip, ta[0], a[0])), 'second': cp(conv(ip, ta[1], a[1]))})
            if len(a) == 1 and isinstance(a[0], Obj):
                return a[0].copy()
            return ip.default(t)
        return f

    def f(env):
        a = [x(env) for x in args]
        if not a:
            if 'iterator' in t:
                return It(None, 0)
            if 'basic_string' in t:
                return ''
            if 'initializer_list' in t:
                return Vec([])
            return None
        return cp(a[0])
    return f


def conv(ip, et, v):
    t = ip.canon(et)
    if t in I.FLOATS and type(v) is int:
        return Fraction(v) if ip.mode == 'sym' else float(v)
    return v


def rng_vals(ip, a, b):
    if a.v is None or a.v is not b.v:
        ip.ub('iterator range of different containers')
    d = con(ip, a.v)
    if a.rev:
        if not (0 <= b.i <= a.i <= len(d)):
            ip.ub('iterator range out of bounds')
        return d[b.i:a.i][::-1]
    if not (isinstance(a.i, int) and isinstance(b.i, int)):
        raise Unsupported('symbolic iterator range')
    if not (0 <= a.i <= b.i <= len(d)):
        ip.ub('iterator range [%d,%d) out of bounds [0,%d]' % (a.i, b.i, len(d)))
    return d[a.i:b.i]


def absv(ip, x):
    if isinstance(x, SI):
        return -x if ip.ctx.decide(rel('lt', x, 0)) else x
    if isinstance(x, T):
        if x.op == 'abs' or x.op == 'const':
            return abs_(x)
        s = ip.sign(x)
        if s in ('+', '0+', '00'):
            return x
        if s in ('-', '0-'):
            return -x
        if ip.fork_abs and ip.ctx.__dict__.get('hints'):
            from solver import pit_zero
            if pit_zero(x, ip.ctx.rng, ip.ctx.positive):
                return Fraction(0)
        if ip.fork_abs:
            return -x if ip.ctx.decide(rel('lt', x, ZERO)) else x
        return abs_(x)
    if isinstance(x, Uninit):
        ip.ub('read of an uninitialised value')
    return abs(x)


def sqrtv(ip, x):
    if isinstance(x, (T, Fraction)) or (ip.mode == 'sym' and isinstance(x, int)):
        if isinstance(x, Fraction) and x < 0:
            ip.ub('square root of a negative number')
        rs = ip.ctx.__dict__.get('roots') if ip.ctx else None
        if rs and isinstance(x, T):
            from solver import pit_zero
            for r in rs:
                if pit_zero(x - r * r, ip.ctx.rng, ip.ctx.positive):
                    return unc(r)
        return unc(sqrt_(lift(x)))
    if isinstance(x, Uninit):
        ip.ub('read of an uninitialised value')
    return math.sqrt(x) if x >= 0 else math.nan


def unc(t):
    return t.a if isinstance(t, T) and t.op == 'const' else t


def powv(ip, x, y):
    if isinstance(y, T) and y.op == 'const':
        y = y.a
    if isinstance(x, (T, SI)) or ip.mode == 'sym':
        if isinstance(y, (int, Fraction)) and y == int(y):
            if isinstance(x, SI):
                x = lift(x)
            if y < 0:
                return ip.fdiv(Fraction(1), x ** int(-y) if isinstance(x, T) else Fraction(x) ** int(-y))
            return x ** int(y) if isinstance(x, T) else Fraction(x) ** int(y)
        if isinstance(y, Fraction) and y == Fraction(1, 2):
            return sqrtv(ip, x)
        return fn('pow', x, y)
    try:
        return math.pow(x, y)
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return math.nan


def fnv(ip, nm, *a):
    if ip.mode == 'sym':
        a = [lift(x) for x in a]
        if nm in ('sin', 'cos', 'tan') and len(a) == 1:
            return trig(nm, a[0])
        if nm == 'acos' and isc(a[0]):
            c = {0: Fraction(1, 2), 1: Fraction(0), -1: Fraction(1)}.get(a[0].a)
            if c is not None:
                return unc(mul(const(c), PI))
        if nm in ('atan', 'asin') and a[0] is ZERO:
            return Fraction(0)
        return fn(nm, *a)
    try:
        return getattr(math, nm)(*a)
    except (ValueError, OverflowError):
        return math.nan


_TR = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}


def trig(nm, t):
    """sin/cos/tan with exact values at multiples of pi/2 (and pi/4, pi/6 where rational in sqrt)"""
    from solver import angle_lin
    lin = angle_lin(t)
    if not lin:
        return {'sin': Fraction(0), 'cos': Fraction(1), 'tan': Fraction(0)}[nm]
    if set(lin) == {'pi'}:
        q = lin['pi']
        h = q * 2
        if h.denominator == 1:
            c, s = _TR[int(h) % 4]
        else:
            c, s = exact_trig(q)
            if c is None:
                return fn(nm, t)
        if nm == 'cos':
            return unc(lift(c))
        if nm == 'sin':
            return unc(lift(s))
        return unc(div(lift(s), lift(c)))
    return fn(nm, t)


def exact_trig(q):
    q = q % 2
    tab = {}
    r2 = mul(const(Fraction(1, 2)), sqrt_(const(2)))
    r3 = mul(const(Fraction(1, 2)), sqrt_(const(3)))
    hf = const(Fraction(1, 2))
    base = {Fraction(1, 4): (r2, r2), Fraction(1, 6): (r3, hf), Fraction(1, 3): (hf, r3)}
    k = int(q // Fraction(1, 2))
    r = q - k * Fraction(1, 2)
    if r not in base:
        return None, None
    c, s = base[r]
    for _ in range(k):
        c, s = neg(s), c
    return c, s


def maxv(ip, a, b):
    return b if ip.lt(a, b) else a


def minv(ip, a, b):
    return b if ip.lt(b, a) else a


def sort(ip, d, less):
    """any sorting algorithm gives the same sequence of values for a strict weak order on scalars"""
    out = []
    for x in d:
        i = len(out)
        while i > 0 and less(x, out[i - 1]):
            i -= 1
            ip.step()
        out.insert(i, x)
    return out


def function(comp, name, node, argn):
    ip = comp.ip
    argn = [a for a in argn if a.get('kind')]
    rt = ip.canon(I.ty(node))
    if not argn:
        if name in ('max', 'min', 'lowest', 'epsilon', 'infinity', 'quiet_NaN'):
            if rt in I.FLOATS:
                v = {'max': math.inf if ip.mode == 'sym' else 1.7976931348623157e308,
                     'lowest': -math.inf if ip.mode == 'sym' else -1.7976931348623157e308,
                     'min': Fraction(1, 10 ** 300) if ip.mode == 'sym' else 2.2250738585072014e-308,
                     'epsilon': Fraction(1, 2 ** 52) if ip.mode == 'sym' else 2.220446049250313e-16,
                     'infinity': math.inf, 'quiet_NaN': math.nan}[name]
            else:
                bits = {'int': 31, 'long': 63, 'unsigned int': 32, 'unsigned long': 64}.get(rt)
                if bits is None:
                    return None
                v = {'max': (1 << bits) - 1, 'min': -(1 << bits) if not rt.startswith('unsigned') else 0,
                     'lowest': -(1 << bits)}.get(name)
            return lambda env: v
        return None
    if name == 'move' or name == 'forward':
        if len(argn) == 1:
            return comp.rv(argn[0])
    if name == 'swap' and len(argn) == 2:
        if ip.is_scalar(I.ty(argn[0])):
            a = comp.lv(argn[0]); b = comp.lv(argn[1])

            def f(env):
                x = a(env); y = b(env)
                x[0][x[1]], y[0][y[1]] = y[0][y[1]], x[0][x[1]]
            return f
        a = comp.rv(argn[0]); b = comp.rv(argn[1])

        def f(env):
            x = a(env); y = b(env)
            t = x.copy()
            x.assign(y)
            y.assign(t)
        return f
    known1 = {'fabs', 'abs', 'sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'floor', 'ceil', 'exp', 'log', 'isnan', 'isinf',
              'round', 'isfinite', 'cbrt', 'trunc', 'labs', 'fabsf', 'sqrtf', 'atan2', 'fmod', 'hypot', 'copysign', 'fmax', 'fmin',
              'pow', 'max', 'min', 'clamp', 'sort', 'stable_sort', 'reverse', 'unique', 'fill', 'iota', 'minmax_element', 'is_sorted', 'memset',
              'memcpy', 'min_element', 'max_element', 'prev', 'next', 'accumulate', 'copy', 'distance', 'lower_bound',
              'upper_bound', 'transform', 'make_pair', 'find', 'count', 'find_if', 'any_of', 'all_of', 'none_of', 'fill_n', 'copy_n',
              'equal', 'begin', 'end', 'size', 'back_inserter', 'advance', 'for_each', 'rotate', 'fma', 'signbit', 'inner_product', 'count_if',
              'remove_if', 'reverse_copy', 'copy_backward', 'swap_ranges', 'exchange', 'ref', 'cref', 'partial_sum', 'binary_search',
              'adjacent_find', 'move_backward', 'iter_swap', 'nth_element', 'lexicographical_compare', 'mismatch', 'data', 'empty', 'as_const', 'addressof', 'tie', 'generate'}
    if name not in known1:
        return None
    A = [comp.rv(a) for a in argn]
    isint = rt in I.INTS

    if name in ('as_const', 'ref', 'cref'):
        return A[0]
    if name in ('fabs', 'abs', 'labs', 'fabsf'):
        return lambda env: absv(ip, A[0](env))
    if name in ('sqrt', 'sqrtf'):
        return lambda env: sqrtv(ip, A[0](env))
    if name == 'pow':
        return lambda env: powv(ip, A[0](env), A[1](env))
    if name == 'fma':
        return lambda env: A[0](env) * A[1](env) + A[2](env)
    if name == 'hypot':
        def f(env):
            v = [a(env) for a in A]
            s = v[0] * v[0]
            for x in v[1:]:
                s = s + x * x
            return sqrtv(ip, s)
        return f
    if name in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'atan2', 'cbrt'):
        return lambda env: fnv(ip, name, *[a(env) for a in A])
    if name in ('floor', 'ceil', 'round', 'trunc'):
        def f(env):
            v = A[0](env)
            if isinstance(v, T):
                if v.op != 'const':
                    raise Unsupported(name + ' of a symbolic value')
                v = v.a
            if isinstance(v, float):
                if math.isnan(v) or math.isinf(v):
                    return v
                return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(name, lambda q: math.floor(abs(q) + 0.5) * (1 if q >= 0 else -1))(v))
            if name == 'floor':
                return Fraction(math.floor(v))
            if name == 'ceil':
                return Fraction(math.ceil(v))
            if name == 'trunc':
                return Fraction(math.trunc(v))
            s = 1 if v >= 0 else -1
            return Fraction(s * math.floor(abs(v) + Fraction(1, 2)))
        return f
    if name == 'fmod':
        def f(env):
            x, y = A[0](env), A[1](env)
            if ip.mode == 'sym':
                raise Unsupported('fmod')
            return math.fmod(x, y)
        return f
    if name in ('isnan', 'isinf', 'isfinite', 'signbit'):
        def f(env):
            v = A[0](env)
            if isinstance(v, Uninit):
                ip.ub('read of an uninitialised value')
            if isinstance(v, float):
                return {'isnan': math.isnan(v), 'isinf': math.isinf(v), 'isfinite': math.isfinite(v), 'signbit': math.copysign(1, v) < 0}[name]
            if name == 'signbit':
                return ip.lt(v, 0)
            return name == 'isfinite'
        return f
    if name in ('max', 'min', 'fmax', 'fmin'):
        pick = maxv if name.endswith('max') else minv
        if len(A) == 1:
            def f(env):
                v = A[0](env)
                r = v.d[0]
                for x in v.d[1:]:
                    r = pick(ip, r, x)
                return r
            return f
        if len(A) == 3:
            def f(env):
                a = A[0](env); b = A[1](env); c = A[2](env)
                if name == 'max':
                    return b if callf(ip, comp, c, [a, b]) else a
                return b if callf(ip, comp, c, [b, a]) else a
            return f
        return lambda env: pick(ip, A[0](env), A[1](env))
    if name == 'clamp':
        def f(env):
            v, lo, hi = A[0](env), A[1](env), A[2](env)
            if ip.lt(v, lo):
                return lo
            if ip.lt(hi, v):
                return hi
            return v
        return f
    if name == 'make_pair':
        return lambda env: Obj('std::pair', {'first': cp(A[0](env)), 'second': cp(A[1](env))})
    if name in ('begin', 'end', 'size', 'data', 'empty') and len(A) == 1:
        return method(comp, '', name, A[0], [], node, False)
    if name in ('prev', 'next'):
        sg = 1 if name == 'next' else -1

        def f(env):
            it = A[0](env)
            k = A[1](env) if len(A) > 1 and argn[1]['kind'] != 'CXXDefaultArgExpr' else 1
            return itadd(it, sg * k)
        return f
    if name == 'advance':
        def f(env):
            it = A[0](env)
            it.assign(itadd(it, A[1](env)))
        return f
    if name == 'distance':
        return lambda env: itdiff(A[0](env), A[1](env))
    return algo(comp, name, A, argn)


def itadd(it, k):
    if isinstance(it, It):
        return It(it.v, it.i - k if it.rev else it.i + k, it.rev)
    if isinstance(it, MIt):
        return MIt(it.m, it.i + k)
    if isinstance(it, Ptr):
        return Ptr(it.v, it.o + k)
    raise Unsupported('iterator arithmetic')


def itdiff(a, b):
    if isinstance(a, It):
        return (a.i - b.i) if a.rev else (b.i - a.i)
    if isinstance(a, Ptr):
        return b.o - a.o
    return b.i - a.i


def as_rng(ip, a, b):
    if isinstance(a, Ptr):
        a = It(a.v, a.o); b = It(b.v, b.o)
    if isinstance(a, MIt):
        raise Unsupported('algorithm on a map')
    vals = rng_vals(ip, a, b)
    return a, b, vals


def setr(a, b, vals):
    if a.rev:
        a.v.d[b.i:a.i] = vals[::-1]
    else:
        a.v.d[a.i:b.i] = vals


def ipeq(ip, x, y):
    if isinstance(x, AGG):
        raise Unsupported('comparison of aggregates in an algorithm')
    return I.ip_eq(ip, x, y)


def algo(comp, name, A, argn):
    ip = comp.ip

    def f(env):
        a = [x(env) for x in A]
        n = len(a)
        if name in ('sort', 'stable_sort'):
            r = as_rng(ip, a[0], a[1])
            less = (lambda x, y: ip.tobool(callf(ip, comp, a[2], [x, y]))) if n > 2 else (lambda x, y: ip.lt(x, y))
            setr(r[0], r[1], sort(ip, list(r[2]), less))
            return None
        if name == 'reverse':
            r = as_rng(ip, a[0], a[1])
            setr(r[0], r[1], list(r[2])[::-1])
            return None
        if name == 'unique':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            out = []
            for x in vals:
                if out and (ip.tobool(callf(ip, comp, a[2], [out[-1], x])) if n > 2 else ipeq(ip, out[-1], x)):
                    continue
                out.append(x)
            k = len(out)
            setr(r0, r1, out + list(vals[k:]))
            return itadd(r0, k)
        if name == 'fill':
            r = as_rng(ip, a[0], a[1])
            v = conv(ip, r[0].v.et, a[2]) if r[0].v.et else a[2]
            setr(r[0], r[1], [cp(v) for _ in r[2]])
            return None
        if name == 'fill_n':
            it = a[0] if isinstance(a[0], It) else It(a[0].v, a[0].o)
            setr(it, It(it.v, it.i + a[1]), [cp(a[2]) for _ in range(a[1])])
            return itadd(it, a[1])
        if name == 'iota':
            r = as_rng(ip, a[0], a[1])
            setr(r[0], r[1], [a[2] + i for i in range(len(r[2]))])
            return None
        if name in ('min_element', 'max_element', 'minmax_element'):
            r0, r1, vals = as_rng(ip, a[0], a[1])
            less = (lambda x, y: ip.tobool(callf(ip, comp, a[2], [x, y]))) if n > 2 else (lambda x, y: ip.lt(x, y))
            if not vals:
                return r1
            lo = hi = 0
            for i in range(1, len(vals)):
                if less(vals[i], vals[lo]):
                    lo = i
                if name == 'minmax_element':
                    if not less(vals[i], vals[hi]):
                        hi = i
                elif less(vals[hi], vals[i]):
                    hi = i
            if name == 'minmax_element':
                return Obj('std::pair', {'first': itadd(r0, lo), 'second': itadd(r0, hi)})
            return itadd(r0, lo if name == 'min_element' else hi)
        if name == 'is_sorted':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            less = (lambda x, y: ip.tobool(callf(ip, comp, a[2], [x, y]))) if n > 2 else (lambda x, y: ip.lt(x, y))
            return all(not less(vals[i + 1], vals[i]) for i in range(len(vals) - 1))
        if name == 'accumulate':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            acc = a[2]
            for x in vals:
                acc = callf(ip, comp, a[3], [acc, x]) if n > 3 else acc + x
            return acc
        if name == 'inner_product':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            acc = a[3]
            for i, x in enumerate(vals):
                acc = acc + x * ip.elem(a[2].v, a[2].i + i)
            return acc
        if name == 'partial_sum':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            acc = None
            out = []
            for x in vals:
                acc = x if acc is None else acc + x
                out.append(acc)
            setr(a[2], itadd(a[2], len(out)), out)
            return itadd(a[2], len(out))
        if name in ('copy', 'transform', 'reverse_copy', 'copy_n'):
            if name == 'copy_n':
                a = [a[0], itadd(a[0], a[1]), a[2]]
            r0, r1, vals = as_rng(ip, a[0], a[1])
            vals = [cp(x) for x in vals]
            if name == 'transform':
                if len(a) == 5:
                    other = [ip.elem(a[2].v, a[2].i + i) for i in range(len(vals))]
                    vals = [callf(ip, comp, a[4], [x, y]) for x, y in zip(vals, other)]
                    a = [a[0], a[1], a[3]]
                else:
                    vals = [callf(ip, comp, a[3], [x]) for x in vals]
            if name == 'reverse_copy':
                vals = vals[::-1]
            d = a[2]
            if isinstance(d, Ptr):
                d = It(d.v, d.o)
            if isinstance(d, tuple) and d[0] == 'back':
                d[1].d.extend(vals)
                return d
            e = itadd(d, len(vals))
            dd = con(ip, d.v)
            lo, hi = (e.i, d.i) if d.rev else (d.i, e.i)
            if not (0 <= lo <= hi <= len(dd)):
                ip.ub('copy beyond the end of the destination')
            setr(d, e, vals)
            return e
        if name == 'copy_backward' or name == 'move_backward':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            vals = [cp(x) for x in vals]
            d = a[2]
            s = itadd(d, -len(vals))
            if s.i < 0 or d.i > len(d.v.d):
                ip.ub('copy beyond the destination')
            setr(s, d, vals)
            return s
        if name == 'back_inserter':
            return ('back', a[0])
        if name in ('lower_bound', 'upper_bound', 'binary_search'):
            r0, r1, vals = as_rng(ip, a[0], a[1])
            lo, hi = 0, len(vals)
            cmpf = (lambda x, y: ip.tobool(callf(ip, comp, a[3], [x, y]))) if n > 3 else (lambda x, y: ip.lt(x, y))
            while lo < hi:
                m = (lo + hi) // 2
                if (cmpf(vals[m], a[2]) if name != 'upper_bound' else not cmpf(a[2], vals[m])):
                    lo = m + 1
                else:
                    hi = m
            if name == 'binary_search':
                return lo < len(vals) and not cmpf(a[2], vals[lo])
            return itadd(r0, lo)
        if name in ('find', 'find_if', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'for_each'):
            r0, r1, vals = as_rng(ip, a[0], a[1])
            if name in ('find', 'count'):
                t = lambda x: ipeq(ip, x, a[2])
            else:
                t = lambda x: callf(ip, comp, a[2], [x])
            if name == 'for_each':
                for i, x in enumerate(vals):
                    t(ip.elem_ref(r0.v, r0.i + i) if not isinstance(x, AGG) else x)
                return a[2]
            if name.startswith('count'):
                return sum(1 for x in vals if ip.tobool(t(x)))
            if name == 'any_of':
                return any(ip.tobool(t(x)) for x in vals)
            if name == 'all_of':
                return all(ip.tobool(t(x)) for x in vals)
            if name == 'none_of':
                return not any(ip.tobool(t(x)) for x in vals)
            for i, x in enumerate(vals):
                if ip.tobool(t(x)):
                    return itadd(r0, i)
            return r1
        if name == 'adjacent_find':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            for i in range(len(vals) - 1):
                if ip.tobool(callf(ip, comp, a[2], [vals[i], vals[i + 1]])) if n > 2 else ipeq(ip, vals[i], vals[i + 1]):
                    return itadd(r0, i)
            return r1
        if name == 'rotate':
            r0, r1, vals = as_rng(ip, a[0], a[2])
            k = itdiff(a[0], a[1])
            setr(r0, r1, list(vals[k:]) + list(vals[:k]))
            return itadd(a[0], len(vals) - k)
        if name == 'equal':
            r0, r1, vals = as_rng(ip, a[0], a[1])
            return all(ipeq(ip, x, ip.elem(a[2].v, a[2].i + i)) for i, x in enumerate(vals))
        if name == 'memset':
            p = a[0]
            if not isinstance(p, Ptr) or a[1] != 0:
                raise Unsupported('memset')
            zeroall(ip, p.v)
            return None
        if name == 'memcpy':
            d, s, nb = a
            k = nb // 8
            flat_copy(ip, d, s, k)
            return None
        raise Unsupported('std::' + name)
    return f


def zeroall(ip, v):
    for i, x in enumerate(v.d):
        if isinstance(x, Vec):
            zeroall(ip, x)
        else:
            v.d[i] = ip.zero()


def flat_slots(v):
    out = []
    for i, x in enumerate(v.d):
        if isinstance(x, Vec):
            out += flat_slots(x)
        else:
            out.append((v.d, i))
    return out


def flat_copy(ip, d, s, k):
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported('memcpy')
    D, S = flat_slots(d.v)[d.o:], flat_slots(s.v)[s.o:]
    if k > len(D) or k > len(S):
        ip.ub('memcpy out of bounds')
    vals = [c[i] for c, i in S[:k]]
    for (c, i), x in zip(D, vals):
        c[i] = x


# ------------------------------------------------------------------ methods
def method(comp, bt, name, base, argn, node, want_ref):
    ip = comp.ip
    argn = [a for a in argn if a.get('kind') and a['kind'] != 'CXXDefaultArgExpr']
    if name in ('emplace_back', 'push_back') and bt.startswith('std::vector<'):
        et = ip.canon(I.targs(bt)[0])
        A = [comp.rv(a) for a in argn]

        def f(env):
            v = base(env)
            a = [x(env) for x in A]
            if ip.sym_push(v, a):
                return None
            con(ip, v)
            if len(a) == 1 and (ip.is_scalar(et) or (isinstance(a[0], AGG) and not (isinstance(a[0], Vec) and ip.cls(et)))):
                x = cp(conv(ip, et, a[0]))
            elif len(a) == 0:
                x = ip.default(et, True)
            else:
                x = emplace(ip, et, a)
            v.d.append(x)
            return x
        return f
    A = [comp.rv(a) for a in argn]
    if bt.startswith(('std::map<', 'std::_Rb', 'std::set<')):
        return mapmethod(comp, name, base, A, want_ref)
    if bt.startswith(('std::basic_string', 'std::string')):
        return lambda env: ''
    if name == 'size':
        def f(env):
            v = base(env)
            if isinstance(v, MapV):
                return len(v.k)
            if isinstance(v, str):
                return len(v)
            d = v.d
            n = getattr(d, 'sym_len', None)
            return len(d) if n is None else n
        return f
    if name == 'empty':
        def f(env):
            v = base(env)
            if isinstance(v, MapV):
                return not v.k
            n = vlen(ip, v)
            return n == 0 if isinstance(n, int) else ip.eq(n, 0)
        return f
    if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'crbegin', 'rend', 'crend'):
        def f(env):
            v = base(env)
            if isinstance(v, MapV):
                return MIt(v, 0 if 'begin' in name else len(v.k))
            n = vlen(ip, v)
            if name in ('begin', 'cbegin'):
                return It(v, 0)
            if name in ('end', 'cend'):
                return It(v, n)
            if 'rbegin' in name:
                return It(v, n, True)
            return It(v, 0, True)
        return f
    if name in ('at', 'operator[]'):
        def f(env):
            v = base(env); i = A[0](env)
            try:
                r = ip.elem(v, i)
            except CppUB:
                if name == 'at':
                    raise CppThrow('std::out_of_range')
                raise
            if want_ref and not isinstance(r, AGG):
                return ip.elem_ref(v, i)
            return r
        return f
    if name in ('front', 'back'):
        def f(env):
            v = base(env)
            n = vlen(ip, v)
            if n == 0:
                ip.ub(name + '() of an empty vector')
            i = 0 if name == 'front' else n - 1
            r = ip.elem(v, i)
            if want_ref and not isinstance(r, AGG):
                return ip.elem_ref(v, i)
            return r
        return f
    if name == 'data':
        return lambda env: Ptr(base(env), 0)
    if name in ('reserve', 'shrink_to_fit'):
        def f(env):
            v = base(env)
            if name == 'reserve':
                n = A[0](env)
                if isinstance(n, int) and (n < 0 or n > (1 << 59)):
                    raise CppThrow('std::length_error')
        return f
    if name == 'capacity':
        raise Unsupported('capacity')
    if name == 'clear':
        def f(env):
            v = base(env)
            v.d = []
        return f
    if name == 'pop_back':
        def f(env):
            v = base(env)
            d = con(ip, v)
            if not d:
                ip.ub('pop_back of an empty vector')
            d.pop()
        return f
    if name == 'resize':
        def f(env):
            v = base(env)
            n = A[0](env)
            if isinstance(n, SI) or getattr(v.d, 'sym_get', None) is not None:
                return ip.sym_resize(v, n, A[1](env) if len(A) > 1 else None)
            n = need_int(ip, n)
            d = v.d
            if n < len(d):
                del d[n:]
            elif len(A) > 1:
                x = conv(ip, v.et, A[1](env))
                for _ in range(n - len(d)):
                    d.append(cp(x))
            elif n > len(d):
                et = v.et
                if ip.is_scalar(et):
                    d.extend([ip.default(et, True)] * (n - len(d)))
                else:
                    for _ in range(n - len(d)):
                        d.append(ip.default(et, True))
        return f
    if name == 'assign':
        def f(env):
            v = base(env)
            a = [x(env) for x in A]
            if len(a) == 1:
                v.d[:] = [cp(x) for x in a[0].d]
            elif isinstance(a[0], It):
                v.d[:] = [cp(x) for x in rng_vals(ip, a[0], a[1])]
            else:
                x = conv(ip, v.et, a[1])
                v.d = [cp(x) for _ in range(need_int(ip, a[0]))]
        return f
    if name == 'fill':
        def f(env):
            v = base(env)
            x = A[0](env)
            for i in range(len(v.d)):
                v.d[i] = cp(x)
        return f
    if name == 'swap':
        def f(env):
            v = base(env); o = A[0](env)
            v.d, o.d = o.d, v.d
        return f
    if name in ('insert', 'emplace'):
        def f(env):
            v = base(env)
            a = [x(env) for x in A]
            if getattr(v.d, 'sym_get', None) is not None:
                return ip.sym_insert(v, a)
            p = a[0]
            if p.v is not v:
                ip.ub('insert with a foreign iterator')
            d = v.d
            if not (0 <= p.i <= len(d)):
                ip.ub('insert position out of range')
            if len(a) == 3 and isinstance(a[1], It):
                new = [cp(x) for x in rng_vals(ip, a[1], a[2])]
            elif len(a) == 3:
                new = [cp(conv(ip, v.et, a[2])) for _ in range(need_int(ip, a[1]))]
            elif isinstance(a[1], Vec) and not I.strip(v.et).startswith('std::vector'):
                new = [cp(x) for x in a[1].d]
            else:
                new = [cp(conv(ip, v.et, a[1]))]
            d[p.i:p.i] = new
            return It(v, p.i)
        return f
    if name == 'erase':
        def f(env):
            v = base(env)
            a = [x(env) for x in A]
            if getattr(v.d, 'sym_get', None) is not None:
                return ip.sym_erase(v, a)
            d = v.d
            i = a[0].i
            j = a[1].i if len(a) > 1 else i + 1
            if not (0 <= i <= j <= len(d)):
                ip.ub('erase out of range')
            del d[i:j]
            return It(v, i)
        return f
    if name == 'base':
        return lambda env: It(base(env).v, base(env).i)
    if name in ('what', 'c_str', 'str'):
        return lambda env: ''
    raise Unsupported('method %s::%s' % (bt[:40], name))


def emplace(ip, et, a):
    c = ip.cls(et)
    if c is None:
        if et.startswith('std::vector<'):
            n = a[0]
            if isinstance(n, Vec):
                return n.copy()
            return Vec([cp(a[1]) if len(a) > 1 else ip.default(I.targs(et)[0], True) for _ in range(need_int(ip, n))], I.targs(et)[0])
        if et.startswith(('std::pair<', 'pair<')):
            return Obj('std::pair', {'first': cp(a[0]), 'second': cp(a[1])})
        raise Unsupported('emplace of ' + et)
    cands = []
    for m in c[1].get('inner', ()):
        if m.get('kind') == 'CXXConstructorDecl' and not m.get('isImplicit'):
            ps = [p for p in m.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
            if len(ps) == len(a):
                ok = all(ip.is_scalar(I.ty(p)) == (not isinstance(x, AGG)) for p, x in zip(ps, a))
                ok = ok and all(not isinstance(x, Obj) or ip.canon(I.ty(p)).replace(' ', '') == x.cls for p, x in zip(ps, a))
                if ok:
                    cands.append((m, ps))
    if len(cands) != 1:
        raise Unsupported('emplace: constructor of %s' % et)
    m, ps = cands[0]
    args = []
    for p, x in zip(ps, a):
        x = conv(ip, I.ty(p), x)
        t = I.ty(p)
        args.append(I.Ref(([x], 0)) if t.rstrip().endswith('&') and ip.is_scalar(t) else x)
    return ip.construct(et, m['type']['qualType'], args)


def mapfind(ip, m, k):
    """(index, found)"""
    for i, kk in enumerate(m.k):
        if isinstance(kk, Obj) or isinstance(k, Obj):
            raise Unsupported('map key')
        if ip.lt(kk, k):
            continue
        if ip.lt(k, kk):
            return i, False
        return i, True
    return len(m.k), False


def mapmethod(comp, name, base, A, want_ref):
    ip = comp.ip

    def f(env):
        m = base(env)
        a = [x(env) for x in A]
        if name == 'size':
            return len(m.k)
        if name == 'empty':
            return not m.k
        if name in ('begin', 'cbegin'):
            return MIt(m, 0)
        if name in ('end', 'cend'):
            return MIt(m, len(m.k))
        if name == 'clear':
            m.k = []; m.v = []
            return None
        if name in ('find', 'count', 'contains'):
            i, ok = mapfind(ip, m, a[0])
            if name == 'find':
                return MIt(m, i if ok else len(m.k))
            return int(ok) if name == 'count' else ok
        if name in ('lower_bound', 'upper_bound'):
            i, ok = mapfind(ip, m, a[0])
            return MIt(m, i + 1 if ok and name == 'upper_bound' else i)
        if name == 'at':
            i, ok = mapfind(ip, m, a[0])
            if not ok:
                raise CppThrow('std::out_of_range')
            return I.Ref((m.v, i)) if want_ref and not isinstance(m.v[i], AGG) else m.v[i]
        if name == 'erase':
            if isinstance(a[0], MIt):
                i = a[0].i
                if not 0 <= i < len(m.k):
                    ip.ub('map erase(end)')
                del m.k[i]; del m.v[i]
                return MIt(m, i)
            i, ok = mapfind(ip, m, a[0])
            if ok:
                del m.k[i]; del m.v[i]
            return int(ok)
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if len(a) == 1:
                k, v = a[0].f['first'], a[0].f['second']
            else:
                k, v = a
            i, ok = mapfind(ip, m, k)
            if not ok:
                m.k.insert(i, k); m.v.insert(i, cp(conv(ip, m.vt, v)))
            elif name == 'insert_or_assign':
                m.v[i] = cp(v)
            return Obj('std::pair', {'first': MIt(m, i), 'second': not ok})
        raise Unsupported('map::' + name)
    return f


# ------------------------------------------------------------------ operators
def operator(comp, nm, t0, argn, node, want_ref):
    ip = comp.ip
    if nm == 'operator[]':
        b = comp.rv(argn[0])
        i = comp.rv(argn[1])

        def f(env):
            v = b(env); k = i(env)
            if isinstance(v, Vec):
                d = v.d
                if type(k) is int and 0 <= k < len(d):
                    r = d[k]
                    if want_ref and not isinstance(r, AGG):
                        return I.Ref((d, k))
                    return r
                if want_ref:
                    r = ip.elem_ref(v, k)
                    x = r[0][r[1]]
                    return x if isinstance(x, AGG) else r
                return ip.elem(v, k)
            if isinstance(v, MapV):
                j, ok = mapfind(ip, v, k)
                if not ok:
                    v.k.insert(j, k)
                    v.v.insert(j, ip.default(v.vt, True))
                r = v.v[j]
                if want_ref and not isinstance(r, AGG):
                    return I.Ref((v.v, j))
                return r
            if isinstance(v, It):
                j = v.i - 1 - k if v.rev else v.i + k
                r = ip.elem(v.v, j)
                if want_ref and not isinstance(r, AGG):
                    return ip.elem_ref(v.v, j)
                return r
            raise Unsupported('operator[] on %r' % type(v))
        return f
    if nm == 'operator=':
        a = comp.rv(argn[0]); b = comp.rv(argn[1])

        def f(env):
            v = b(env); o = a(env)
            if isinstance(o, Lam) or isinstance(o, str) or o is None:
                raise Unsupported('assignment to ' + t0)
            if o is not v:
                if isinstance(o, Vec) and isinstance(v, Vec):
                    if contains(o, v):
                        v = v.copy()
                    if getattr(o.d, 'sym_get', None) is not None or getattr(v.d, 'sym_get', None) is not None:
                        o.d = v.copy().d
                        return o
                    et = o.et
                    o.assign(v)
                    o.et = et or v.et
                elif isinstance(o, Obj) and isinstance(v, Vec):
                    raise Unsupported('brace assignment')
                else:
                    o.assign(v)
            return o
        return f
    args = [comp.rv(a) for a in argn]
    if nm in ('operator*', 'operator->'):
        def f(env):
            it = args[0](env)
            if isinstance(it, It):
                r = ip.elem(it.v, it.pos) if it.v is not None else ip.ub('dereference of a singular iterator')
                if want_ref and not isinstance(r, AGG):
                    return ip.elem_ref(it.v, it.pos)
                return r
            if isinstance(it, MIt):
                if not 0 <= it.i < len(it.m.k):
                    ip.ub('dereference of map end()')
                return mpair(it)
            return I.ip_deref(ip, it)
        return f
    if nm in ('operator++', 'operator--'):
        post = len(argn) == 2
        d = 1 if nm == 'operator++' else -1

        def f(env):
            it = args[0](env)
            old = it.copy()
            it.assign(itadd(it, d))
            return old if post else it
        return f
    if nm in ('operator+=', 'operator-=') and 'string' not in t0:
        sg = 1 if nm == 'operator+=' else -1

        def f(env):
            it = args[0](env)
            it.assign(itadd(it, sg * args[1](env)))
            return it
        return f
    if nm in ('operator+', 'operator-') and 'iterator' in t0:
        def f(env):
            x = args[0](env); y = args[1](env)
            if isinstance(y, (It, MIt)):
                return itdiff(y, x)
            return itadd(x, y if nm == 'operator+' else -y)
        return f
    if nm in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        def f(env):
            x = args[0](env); y = args[1](env)
            if isinstance(x, (It, MIt)):
                if nm in ('operator==', 'operator!='):
                    r = ip.eq(x.i, y.i)
                    return r if nm == 'operator==' else not r
                k = itdiff(y, x)
                return {'operator<': k < 0, 'operator>': k > 0, 'operator<=': k <= 0, 'operator>=': k >= 0}[nm]
            if isinstance(x, Vec) and nm in ('operator==', 'operator!='):
                r = veq(ip, comp, x, y)
                return r if nm == 'operator==' else not r
            raise Unsupported(nm + ' on ' + t0)
        return f
    if 'string' in t0 or nm == 'operator<<':
        return lambda env: ''
    raise Unsupported('%s on %s' % (nm, t0))


def veq(ip, comp, x, y):
    if len(x.d) != len(y.d):
        return False
    for a, b in zip(x.d, y.d):
        if isinstance(a, Vec):
            if not veq(ip, comp, a, b):
                return False
        elif isinstance(a, AGG):
            raise Unsupported('vector comparison')
        elif not I.ip_eq(ip, a, b):
            return False
    return True


def contains(o, v):
    for x in o.d if not hasattr(o.d, 'sym_get') else ():
        if x is v:
            return True
        if isinstance(x, Vec) and contains(x, v):
            return True
        if not isinstance(x, Vec):
            break
    return False


class MPD(dict):
    __slots__ = ('it',)

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        if k == 'second':
            self.it.m.v[self.it.i] = v


def mpair(it):
    d = MPD()
    d.it = it
    dict.__setitem__(d, 'first', it.m.k[it.i])
    dict.__setitem__(d, 'second', it.m.v[it.i])
    return Obj('std::pair', d)
