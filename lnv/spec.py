"""Mathematical specification (The NURBS Book definitions), polymorphic over exact terms and floats.
Independent of the library's algorithms: everything is by definition (Cox-de Boor recursion, Leibniz rule, sums)."""
from fractions import Fraction
from math import comb, factorial


class KV:
    """knot vector: values, and ranks (equal rank <=> equal knot)"""

    def __init__(self, vals, ranks):
        self.v = list(vals)
        self.r = list(ranks)

    def __len__(self): return len(self.v)

    def mult(self, rank):
        return sum(1 for x in self.r if x == rank)

    def distinct(self):
        out = []
        for x in self.r:
            if not out or out[-1] != x:
                out.append(x)
        return out

    def spans(self, p):
        """indices i with t_i < t_{i+1} within the domain [t_p, t_{n+1}]"""
        n = len(self.v) - p - 2
        return [i for i in range(p, n + 1) if self.r[i] != self.r[i + 1]]

    def all_spans(self):
        return [i for i in range(len(self.v) - 1) if self.r[i] != self.r[i + 1]]

    def find(self, rank, p):
        """span used for evaluation at the knot of this rank (right-continuous; last span at the end)"""
        n = len(self.v) - p - 2
        if rank >= self.r[n + 1]:
            i = n
        else:
            i = max(j for j in range(len(self.v)) if self.r[j] <= rank)
            i = max(i, p)
        return i

    def insert(self, val, rank, times):
        k = sum(1 for x in self.r if x <= rank)
        return KV(self.v[:k] + [val] * times + self.v[k:], self.r[:k] + [rank] * times + self.r[k:])


def N(kv, p, span, u):
    """dict i -> N_{i,p}(u) for u in [t_span, t_span+1): Cox-de Boor, 0/0 := 0"""
    cur = {span: 1}
    t, r = kv.v, kv.r
    for k in range(1, p + 1):
        nxt = {}
        for i in range(span - k, span + 1):
            if i < 0 or i + k + 1 >= len(t):
                continue
            s = 0
            a = cur.get(i, 0)
            if not (isinstance(a, int) and a == 0) and r[i + k] != r[i]:
                s = s + (u - t[i]) / (t[i + k] - t[i]) * a
            b = cur.get(i + 1, 0)
            if not (isinstance(b, int) and b == 0) and r[i + k + 1] != r[i + 1]:
                s = s + (t[i + k + 1] - u) / (t[i + k + 1] - t[i + 1]) * b
            nxt[i] = s
        cur = nxt
    return cur


def dN(kv, p, span, u, d):
    """dict i -> d-th derivative of N_{i,p}"""
    if d == 0:
        return N(kv, p, span, u)
    if p == 0:
        return {span: 0}
    lo = dN(kv, p - 1, span, u, d - 1)
    t, r = kv.v, kv.r
    out = {}
    for i in range(span - p, span + 1):
        if i < 0 or i + p + 1 >= len(t):
            continue
        s = 0
        a = lo.get(i, 0)
        if r[i + p] != r[i] and not (isinstance(a, int) and a == 0):
            s = s + a * p / (t[i + p] - t[i])
        b = lo.get(i + 1, 0)
        if r[i + p + 1] != r[i + 1] and not (isinstance(b, int) and b == 0):
            s = s - b * p / (t[i + p + 1] - t[i + 1])
        out[i] = s
    return out


def vadd(a, b): return tuple(x + y for x, y in zip(a, b))
def vsub(a, b): return tuple(x - y for x, y in zip(a, b))
def vmul(a, k): return tuple(x * k for x in a)
def dot(a, b): return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def lin(ws, pts):
    """sum w_i P_i ; ws dict index->weight, pts indexable"""
    out = None
    for i, w in sorted(ws.items()):
        q = tuple(x * w for x in pts[i])
        out = q if out is None else vadd(out, q)
    return out


def curve(kv, p, cps, span, u, d=0):
    return lin(dN(kv, p, span, u, d), cps)


def proj(c):
    """homogeneous -> euclidean"""
    return tuple(x / c[-1] for x in c[:-1])


def ratders(ders):
    """derivatives of A/w from homogeneous derivatives (Leibniz), ders[k] = (A^(k), w^(k))"""
    out = []
    w0 = ders[0][-1]
    for k in range(len(ders)):
        v = tuple(ders[k][:-1])
        for i in range(1, k + 1):
            v = vsub(v, vmul(out[k - i], comb(k, i) * ders[i][-1]))
        out.append(tuple(x / w0 for x in v))
    return out


def surface(kvu, pu, kvv, pv, cps, su, u, sv, v, du=0, dv=0):
    Nu = dN(kvu, pu, su, u, du)
    Nv = dN(kvv, pv, sv, v, dv)
    out = None
    for i, a in sorted(Nu.items()):
        q = vmul(lin(Nv, cps[i]), a)
        out = q if out is None else vadd(out, q)
    return out


def volume(kvu, pu, kvv, pv, kvw, pw, cps, su, u, sv, v, sw, w, du=0, dv=0, dw=0):
    Nu = dN(kvu, pu, su, u, du)
    Nv = dN(kvv, pv, sv, v, dv)
    Nw = dN(kvw, pw, sw, w, dw)
    out = None
    for i, a in sorted(Nu.items()):
        for j, b in sorted(Nv.items()):
            q = vmul(lin(Nw, cps[i][j]), a * b)
            out = q if out is None else vadd(out, q)
    return out


def ratders2(S):
    """rational partial derivatives from homogeneous ones; S[k][l], k,l <= d (those with k+l<=d used)"""
    d = len(S) - 1
    w0 = S[0][0][-1]
    out = [[None] * (d + 1) for _ in range(d + 1)]
    for k in range(d + 1):
        for l in range(d + 1 - k):
            v = tuple(S[k][l][:-1])
            for i in range(k + 1):
                for j in range(l + 1):
                    if i == 0 and j == 0:
                        continue
                    v = vsub(v, vmul(out[k - i][l - j], comb(k, i) * comb(l, j) * S[i][j][-1]))
            out[k][l] = tuple(x / w0 for x in v)
    return out


def bernstein(i, n, t):
    r = comb(n, i)
    for _ in range(i):
        r = r * t
    for _ in range(n - i):
        r = r * (1 - t)
    return r


def blossom_bezier(pts, t):
    n = len(pts) - 1
    return lin({i: bernstein(i, n, t) for i in range(n + 1)}, pts)


def insert_once(kv, p, cps, val, rank):
    """Boehm's single knot insertion; returns (new KV, new control points)"""
    k = max(i for i in range(len(kv.v)) if kv.r[i] <= rank)
    s = kv.mult(rank)
    t, r = kv.v, kv.r
    out = []
    n = len(cps) - 1
    for i in range(n + 2):
        if i <= k - p:
            out.append(cps[i])
        elif i <= k - s:
            a = (val - t[i]) / (t[i + p] - t[i])
            out.append(vadd(vmul(cps[i], a), vmul(cps[i - 1], 1 - a)))
        else:
            out.append(cps[i - 1])
    return kv.insert(val, rank, 1), out


def elevate_bezier(pts):
    """degree elevation of Bezier control points by one"""
    n = len(pts) - 1
    out = [pts[0]]
    for i in range(1, n + 1):
        out.append(vadd(vmul(pts[i - 1], Fraction(i, n + 1)), vmul(pts[i], 1 - Fraction(i, n + 1))))
    out.append(pts[n])
    return out
