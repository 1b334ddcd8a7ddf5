"""Contract registry."""
REG = {}


class Contract:
    def __init__(self, name, fns, cases, body, summaries='gp', budget=40.0, trials=6, max_paths=300, note='', native_only=False,
                 unbounded=False, bound='', nat_budget=6.0, noconf=False, big=None):
        self.name = name
        self.fns = fns              # functions under contract
        self.cases = cases          # cases(tier, lits) -> list of dict
        self.body = body
        self.summaries = summaries  # which callee contracts are used at call sites
        self.budget = budget        # seconds per case
        self.trials = trials        # concrete runs per case (quick)
        self.max_paths = max_paths
        self.note = note
        self.native_only = native_only
        self.unbounded = unbounded
        self.bound = bound
        self.nat_budget = nat_budget
        self.noconf = noconf
        self.big = big              # further cases for concrete runs only (larger degrees and sizes)

    def extra(self, lits, quick, rng, n=24):
        """cases that are only run concretely at the quick tier: higher degrees, more knots"""
        out = []
        for L in (self.big or [], self.cases('big', lits), self.cases('thorough', lits)):
            L = [c for c in L if c not in quick and c not in out]
            rng.shuffle(L)
            out += L[:n]
        return out


def contract(name, fns, cases=None, **kw):
    if cases is None:
        cases = lambda tier, lits: [{}]
    elif isinstance(cases, list):
        cs = cases
        cases = lambda tier, lits: cs

    def deco(f):
        assert name not in REG, name
        REG[name] = Contract(name, fns, cases, f, **kw)
        return f
    return deco


# ---------------------------------------------------------------- shapes
def pick(tier, quick, thorough, big=(4, 5, 6, 7)):
    return list(quick if tier == 'quick' else big if tier == 'big' else thorough)


def knot_shapes(p, tier='quick', interior=None):
    """multiplicity patterns of clamped knot vectors of degree p"""
    if tier == 'big':
        out = [[p + 1, 1, 1, 1, p + 1], [p + 1, max(1, p - 1), 1, min(2, p), p + 1], [p + 1, 1, p, p + 1]]
        return [x for i, x in enumerate(out) if x not in out[:i]]
    out = [[p + 1, p + 1]]
    out.append([p + 1, 1, p + 1])
    if p >= 2:
        out.append([p + 1, p, p + 1])
    if p >= 3:
        out.append([p + 1, 2, p + 1])
    out.append([p + 1, 1, 1, p + 1])
    if p >= 2:
        out.append([p + 1, 1, 2, p + 1])
        out.append([p + 1, 2, 1, p + 1])
    if tier == 'thorough':
        out.append([p + 1, 1, 1, 1, p + 1])
        if p >= 2:
            out.append([p + 1, 2, p, 1, p + 1])
            out.append([p + 1, p, p, p + 1])
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def locs(mults, ends=True):
    """parameter locations relative to the distinct knots"""
    out = []
    n = len(mults)
    for k in range(n):
        if ends or 0 < k < n - 1:
            out.append(('knot', k))
        if k < n - 1:
            out.append(('span', k))
    return out


def nctrl(mults, p):
    return sum(mults) - p - 1


def at(kv, p, loc, rank):
    """evaluation span for a location drawn by knotvec"""
    if loc[0] == 'knot':
        return kv.find(rank, p)
    return max(i for i in range(len(kv.v)) if kv.r[i] <= 100 * loc[1])


def draw_curve(E, p, mults, extra=(), rational=True, name=''):
    kv, vals, ranks = E.knotvec(name + 't', mults, extra)
    n = nctrl(mults, p)
    cps = E.wpoints(name + 'P', n) if rational else E.points(name + 'P', n)
    return {'Degree': p, 'KnotVector': kv.v, 'ControlPoints': cps}, kv, vals, ranks


def draw_surface(E, pu, mu, pv, mv, eu=(), ev=(), rational=True, name=''):
    ku, uvals, uranks = E.knotvec(name + 's', mu, eu)
    kv, vvals, vranks = E.knotvec(name + 't', mv, ev)
    n, m = nctrl(mu, pu), nctrl(mv, pv)
    cps = E.wnet(name + 'P', n, m) if rational else E.net(name + 'P', n, m)
    return {'DegreeU': pu, 'DegreeV': pv, 'KnotVectorU': ku.v, 'KnotVectorV': kv.v, 'ControlPoints': cps}, ku, kv, (uvals, uranks), (vvals, vranks)


def draw_volume(E, ps, ms, ex, name=''):
    ks, vals, ranks = [], [], []
    for nm, m, e in zip('rst', ms, ex):
        k, v, r = E.knotvec(name + nm, m, e)
        ks.append(k)
        vals.append(v)
        ranks.append(r)
    n = [nctrl(m, p) for m, p in zip(ms, ps)]
    cps = E.wgrid(name + 'P', *n)
    V = {'DegreeU': ps[0], 'DegreeV': ps[1], 'DegreeW': ps[2], 'KnotVectorU': ks[0].v, 'KnotVectorV': ks[1].v, 'KnotVectorW': ks[2].v, 'ControlPoints': cps}
    return V, ks, vals, ranks


def span_at(kv, p, r):
    """span index of a formal point whose rank lies just above r"""
    return max(i for i in range(len(kv.v)) if kv.r[i] <= r)


def wellformed_curve(E, name, R, q, kv2):
    E.check(name + ': degree', R['Degree'] == q)
    E.eq(name + ': knot vector', R['KnotVector'], kv2.v)
    E.check(name + ': control point count = knots - degree - 1', len(R['ControlPoints']) == len(kv2.v) - q - 1)
    if len(R['ControlPoints']) != len(kv2.v) - q - 1:
        E.fail(name + ': control point count', str(len(R['ControlPoints'])))


def same_curve(E, name, C, kv, p, R, kv2, q, u_of=None):
    """R (degree q, knots kv2) is well formed and describes the same homogeneous curve as C on every span of kv2"""
    import spec
    wellformed_curve(E, name, R, q, kv2)
    for i in kv2.spans(q):
        u = E.interior('%s.u%d' % (name[:8], i), kv2.v[i], kv2.v[i + 1])
        a = spec.curve(kv2, q, R['ControlPoints'], i, u)
        b = spec.curve(kv, p, C['ControlPoints'], span_at(kv, p, kv2.r[i]), u)
        E.eq('%s: same point on span %d' % (name, i), a, b, 1e-5)


def beside(k, d):
    """the double next to k (natively; d = 0: k itself)"""
    import math
    if not d:
        return k
    return k + d * 1e-17 if abs(k) < 1e-3 else math.nextafter(k, math.inf * d)


def beside_cases(gen):
    """the cases at a knot, one rounding error to its left and to its right"""
    def g(tier, lits):
        return [dict(c, ulp=d) for c in gen(tier, lits) if c['loc'][0] == 'knot' for d in (-1, 1)]
    return g
