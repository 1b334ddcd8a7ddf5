"""Run-time values of the interpreted C++ program."""


class Uninit:
    def __repr__(self): return 'UNINIT'

    def _bad(self, *a):
        raise CppUB('read of an uninitialised value')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __abs__ = __pow__ = __mod__ = __floordiv__ = __and__ = __index__ = _bad
    __float__ = __int__ = _bad


UNINIT = Uninit()


class CppThrow(Exception):
    def __init__(self, ty, msg=''):
        Exception.__init__(self, ty)
        self.ty = ty
        self.msg = msg


class CppUB(Exception):
    """undefined behaviour / safety violation reached"""

    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def copy(self):
        return Obj(self.cls, {k: cp(v) for k, v in self.f.items()})

    def assign(self, o):
        # in place, keeps identity of nested aggregates
        for k, v in o.f.items():
            w = self.f.get(k)
            if isinstance(w, (Obj, Vec, MapV)) and type(w) is type(v):
                if w is not v:
                    w.assign(v)
            else:
                self.f[k] = cp(v)

    def __repr__(self):
        return '%s{%s}' % (self.cls, ', '.join('%s=%r' % kv for kv in self.f.items()))


class Vec:
    """std::vector, std::array, C array"""
    __slots__ = ('d', 'et', 'fixed')

    def __init__(self, d, et=None, fixed=False):
        self.d = d
        self.et = et
        self.fixed = fixed

    def copy(self):
        d = self.d
        if d and isinstance(d[0], (Obj, Vec, MapV)):
            return Vec([x if x is None else x.copy() for x in d], self.et, self.fixed)
        return Vec(list(d), self.et, self.fixed)

    def assign(self, o):
        if o is self:
            return
        s = o.d
        d = self.d
        if s and isinstance(s[0], (Obj, Vec, MapV)) and None not in s:
            n = min(len(s), len(d))
            for i in range(n):
                if type(d[i]) is type(s[i]):
                    d[i].assign(s[i])
                else:
                    d[i] = s[i].copy()
            if len(d) > len(s):
                del d[len(s):]
            for i in range(n, len(s)):
                d.append(s[i].copy())
        else:
            self.d[:] = [cp(x) for x in s] if s and None in s else s
        if self.et is None:
            self.et = o.et

    def __len__(self): return len(self.d)
    def __getitem__(self, i): return self.d[i]
    def __iter__(self): return iter(self.d)

    def __repr__(self):
        return repr(self.d)


class MapV:
    """std::map: sorted association list"""
    __slots__ = ('k', 'v', 'kt', 'vt')

    def __init__(self, kt=None, vt=None):
        self.k = []
        self.v = []
        self.kt = kt
        self.vt = vt

    def copy(self):
        m = MapV(self.kt, self.vt)
        m.k = list(self.k)
        m.v = [cp(x) for x in self.v]
        return m

    def assign(self, o):
        self.k = list(o.k)
        self.v = [cp(x) for x in o.v]

    def __repr__(self):
        return '{' + ', '.join('%r:%r' % z for z in zip(self.k, self.v)) + '}'


class It:
    """vector iterator / reverse iterator"""
    __slots__ = ('v', 'i', 'rev')

    def __init__(self, v, i, rev=False):
        self.v = v
        self.i = i
        self.rev = rev

    def copy(self): return It(self.v, self.i, self.rev)

    def assign(self, o):
        self.v = o.v; self.i = o.i; self.rev = o.rev

    @property
    def pos(self):
        return self.i - 1 if self.rev else self.i


class MIt:
    __slots__ = ('m', 'i')

    def __init__(self, m, i):
        self.m = m
        self.i = i

    def copy(self): return MIt(self.m, self.i)

    def assign(self, o):
        self.m = o.m; self.i = o.i


class Ptr:
    """pointer into a Vec's storage"""
    __slots__ = ('v', 'o')

    def __init__(self, v, o):
        self.v = v
        self.o = o


class Lam:
    __slots__ = ('f', 'env')

    def __init__(self, f, env):
        self.f = f
        self.env = env

    def copy(self): return self


AGG = (Obj, Vec, MapV, It, MIt)


def cp(v):
    return v.copy() if isinstance(v, AGG) else v
