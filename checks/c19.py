"""Graded / two parameter marginal estimation.  In every sweep, every item search is compared with the marginal likelihood
of all persons (that item's thresholds reproducing its observed proportions, the others at their current values); the
returned parameters, abilities and criteria with those of the last evaluations."""
import math
from .spec import INVALID, grm, prod, opts, grid, quad, active, same

BOUNDS = '1-3 items of 2-4 categories x 3-4 persons (free cells in all categories and missing, constant items), 1-2 active nodes, 1-2 sweeps, look-up table (an arbitrary monotone function) on and off, latent density fixed or estimated; also large fixed data (over 100 persons, many items, many categories) with at most one free cell'
ASSUMPTIONS = ['fminbound returns an arbitrary point of its range and evaluates the objective there last; optimality is its contract',
               'the look-up table is an arbitrary function of discrimination and proportion, decreasing in the proportion (its accuracy is C07)',
               'every item has at least one observed response; an item after the first whose observed responses are all at the dataset minimum is a recorded finding and explored separately']


def configs(tier):
    w1, w2 = dict(active=[3], probes={0: 1, 1: 1}), dict(active=[0, 7], probes={0: 1, 1: 1})
    out = []
    for name, cats, m, free, it, lut, w in (
            ('lut-2-2', (2, 2), 3, 3, 1, True, w2), ('lut-3-2', (3, 2), 3, 2, 1, True, w2), ('lut-2-3', (2, 3), 3, 2, 1, True, w2),
            ('lut-3', (3,), 4, 1, 1, True, w2), ('lut-4', (4,), 4, 1, 1, True, w1),
            ('lut-2-2-sweeps', (2, 2), 3, 1, 2, True, w1), ('lut-2-3-sweeps', (2, 3), 3, 1, 2, True, w1),
            ('lut-2-2-2', (2, 2, 2), 2, 2, 1, True, w1), ('lut-2-3-2', (2, 3, 2), 3, 1, 1, True, w1),
            ('solve-2-2', (2, 2), 3, 2, 1, False, w1), ('solve-3-2', (3, 2), 3, 1, 1, False, w1), ('solve-2-2-two', (2, 2), 3, 1, 1, False, w2),
            ('solve-2-2-sweeps', (2, 2), 3, 0, 2, False, w1),
            ('many-persons', (3, 2), 150, 1, 1, True, w1), ('many-items', (2, 3) * 4, 4, 0, 1, True, w1), ('many-categories', (9, 2), 11, 0, 1, True, w1)):
        out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, lut=lut), world=w, max_paths=80, cost=len(cats) * it * 2, overrides='LUT'))
    out.append(dict(name='twopl', fn='fit', args=dict(cats=(2, 2), m=3, free=2, it=1, lut=True, two=True), world=w2, max_paths=80, overrides='LUT'))
    out.append(dict(name='twopl-solve', fn='fit', args=dict(cats=(2, 2), m=3, free=1, it=1, lut=False, two=True), world=w1, max_paths=80, overrides='LUT'))
    for lut in (True, False):
        out.append(dict(name='constant-%s' % lut, fn='fit', args=dict(cats=(2, 2), m=2, free=4, it=1, lut=lut), world=w1, max_paths=100, overrides='LUT'))
        out.append(dict(name='all-lowest-%s' % lut, fn='fit', args=dict(cats=(2, 2), m=2, free=0, it=1, lut=lut, known=True), world=w1, overrides='LUT'))
        out.append(dict(name='latent-%s' % lut, fn='fit', args=dict(cats=(2, 2), m=3, free=0, it=2, lut=lut, latent=True), world=dict(active=[3], probes={0: 1, 1: 0}), cost=9, overrides='LUT'))
    out.append(dict(name='latent-3-sweeps', fn='fit', args=dict(cats=(2,), m=3, free=0, it=3, lut=True, latent=True), world=dict(active=[3], probes={0: 1, 1: 0}), cost=9, overrides='LUT'))
    for c in (2, 3, 4):
        out.append(dict(name='ratios-%d' % c, fn='ratios', args=dict(c=c), overrides='UNIQUE'))
    out.append(dict(name='integral', fn='integral', args=dict(n=3, k=2), world=dict(probes={0: 1})))
    if tier == 'thorough':
        for name, cats, m, free, it, lut, w in (('lut-3-3', (3, 3), 4, 3, 1, True, w2), ('lut-3-2-sweeps', (3, 2), 3, 1, 3, True, w1),
                                                ('lut-2-2-2-2', (2, 2, 2, 2), 3, 3, 1, True, w2), ('solve-4-2', (4, 2), 4, 2, 1, False, w2)):
            out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, lut=lut), world=w, max_paths=300, cost=9, overrides='LUT'))
    return out


_H = [None, 0, None, None]


def lut_value(h, a, p, tag):
    return h.sc(h.uf('lut%s' % tag, -6, 6, lambda a, p: (4 + math.sin(1.7 * a + tag)) * (1 - 2 * p) + 0.8 * math.sin(2.3 * a + 3 * tag))(a, p))


def _lut(orig):
    def create(alpha, beta, options=None):
        h = _H[0]
        tag = _H[1]
        _H[1] += 1
        _H[2].append((tuple(alpha), tuple(beta), options, h.lst(options['distribution'](h.arr(_H[3]))) if _H[3] and tag else None))

        def look(a, p):
            P = h.lst(p)
            if not isinstance(P, list):
                return lut_value(h, h.sc(a), P, tag)
            v = [lut_value(h, h.sc(a), q, tag) for q in P]
            for x, y in zip(v, v[1:]):
                h.assume(x + 0.02 < y)
            return h.arr(v)
        return look
    return create


LUT = {'girth.unidimensional.polytomous.grm_mml': {'create_beta_LUT': _lut}}


def recode(X, lo=None):
    """observed responses to 0..c-1 per item; a constant item is 0 at the dataset minimum and 1 otherwise"""
    if lo is None:
        lo = min(v for r in X for v in r if v != INVALID)
    Y, C = [], []
    for r in X:
        vals = sorted({v for v in r if v != INVALID})
        m = {v: k for k, v in enumerate(vals)} if len(vals) > 1 else {vals[0]: int(vals[0] != lo)}
        Y.append([m.get(v, INVALID) for v in r])
        C.append(max(2, len(vals)))
    return Y, C


def data(h, cats, m, free, base=1, known=False):
    X = [[base + min((j + i) % max(cats[i], 2), cats[i] - 1) for j in range(m)] for i in range(len(cats))]
    pos = [(i, j) for j in range(m) for i in range(len(cats))]
    for i, j in pos[len(pos) - free:]:
        X[i][j] = h.choose('x%d_%d' % (i, j), [base + c for c in range(cats[i])] + [INVALID])
    for r in X:
        h.assume(any(v != INVALID for v in r))
    if not known:                       # (see known_findings.txt)
        lo = min(v for r in X for v in r if v != INVALID)
        for r in X[1:]:
            h.assume(any(v not in (lo, INVALID) for v in r))
    return X


def ratio(Y, C):
    """proportion of the observed responses in category k or above, k = 1.."""
    out = []
    for r, c in zip(Y, C):
        o = [v for v in r if v != INVALID]
        out.append([sum(v >= k for v in o) / len(o) for k in range(1, c)])
    return out


def wrapup(h, out, m, like, th, null, dw, k):
    """abilities and criteria of the final parameters; like(j, t) = likelihood of person j at t"""
    ab = h.lst(out['Ability'])
    h.check('one ability per person', len(ab) == m)
    L = [[like(j, t) for t in th] for j in range(m)]
    for j in range(m):
        h.eq('ability', ab[j], sum(v * w * t for v, w, t in zip(L[j], dw, th)) / sum(v * w for v, w in zip(L[j], dw)))
    ll = [sum(h.log(sum(v * w for v, w in zip(L[j], q))) for j in range(m)) for q in (dw, null)]
    for name, pen in (('AIC', lambda n: 2 * n), ('BIC', lambda n: n * h.log(m))):
        r = out[name]
        h.eq(name + ' final', h.sc(r['final']), pen(k) - 2 * ll[0])
        h.eq(name + ' null', h.sc(r['null']), -2 * ll[1])
        h.eq(name + ' delta', h.sc(r['delta']), h.sc(r['null']) - h.sc(r['final']))


def latent_step(h, g, rec, L, th, qn, bounds):
    """the latent density search: marginal likelihood of the spline; its density x weight"""
    def density(x):
        c = g.mod('girth.utilities.latent_ability_distribution').CubicSplinePDF(dict(number_of_samples=5, quadrature_bounds=bounds))
        c.update_coefficients(h.arr([h.sc(v) for v in h.lst(x)]))
        return [h.sc(v) for v in h.lst(c(h.arr(th)))]
    ws = active(*quad(h, g, qn, *bounds))[1]
    h.same_objective('latent density', rec, lambda e: -sum(h.log(sum(l * w * v for l, w, v in zip(r, ws, density(e.x)))) for r in L))
    return [v * w for v, w in zip(density(rec.result), ws)]


def fit(h, g, cats, m, free, it, lut, two=False, latent=False, base=1, known=False):
    _H[:] = [h, 0, [], None]
    n = len(cats)
    X = data(h, cats, m, free, base, known)
    if known:
        X[1] = [base] * m
    Y, C = recode(X)
    R = ratio(Y, C)
    extra = dict(use_LUT=lut, max_iteration=it)
    if latent:
        extra['estimate_distribution'] = True
        opt, qn, bounds, f = dict(quadrature_n=8, quadrature_bounds=(-3.0, 3.0), number_of_samples=5, distribution=h.uf('prior'), **extra), 8, (-3.0, 3.0), None
        f = opt['distribution']
        _H[3] = grid(h, g, qn, bounds, f)[0]
    else:
        opt, qn, bounds, f = opts(h, **extra)
    if not lut:
        h.w.choose = _ordered(h)
    d = h.arr(X, int)
    before, keep = h.copy(d), dict(opt)
    out = (g.twopl_mml if two else g.grm_mml)(d, opt)
    h.check('options unchanged', opt == keep)
    th, null = grid(h, g, qn, bounds, f)
    dw = null
    al = [1.0] * n
    be = [[-1 + 2 * k / (c - 2) for k in range(c - 1)] if c > 2 else [-1.0] for c in C]

    def like(i, j, t, a, b):
        return grm(h, t, b, a)[Y[i][j]] if Y[i][j] != INVALID else 1

    def integral(x, a):
        return sum(w * h.expit(a * (t - x)) for t, w in zip(th, dw))
    recs = list(h.w.records)
    if lut and not _H[1]:
        h.private('girth.unidimensional.polytomous.grm_mml', 'create_beta_LUT not used')
    sweeps = 0
    k = 0
    while recs:
        old = list(al)
        tag = 0
        if latent and sweeps:
            L = [[prod(like(i, j, t, al[i], be[i]) for i in range(n)) for t in th] for j in range(m)]
            dw = latent_step(h, g, recs.pop(0), L, th, qn, bounds)
            tag = sweeps
            if lut:
                h.check('a table for each density', len(_H[2]) > tag)
                if len(_H[2]) > tag:
                    for u, w, v in zip(_H[2][tag][3], active(*quad(h, g, qn, *bounds))[1], dw):
                        h.eq('density of the table', u * w, v)
        h.check('one search per item', len(recs) >= n)
        if len(recs) < n:
            return
        rs, recs = recs[:n], recs[n:]
        for i, r in enumerate(rs):
            h.check('discrimination range', (r.lo, r.hi) == (0.2, 5.0))

            def thresholds(e):
                if lut:
                    return [lut_value(h, h.sc(e.x), p, tag) for p in R[i]]
                h.check('one search per threshold', len(e.children) == C[i] - 1)
                return [h.sc(c.result) for c in e.children]
            if not lut:
                for e in r.evals:
                    for c, p in zip(e.children, R[i]):
                        if len(c.evals) > 1:
                            h.check('threshold range', (c.lo, c.hi) == (-6, 6))
                            h.same_objective('category proportion', c, lambda q: (p - integral(h.sc(q.x), h.sc(e.x))) ** 2)

            def nll(e):
                b = thresholds(e)
                A, B = list(al), list(be)
                A[i], B[i] = h.sc(e.x), b
                return -sum(h.log(sum(w * prod(like(q, j, t, A[q], B[q]) for q in range(n)) for t, w in zip(th, dw))) for j in range(m))
            h.same_objective('marginal likelihood', r, nll)
            al[i], be[i] = h.sc(r.result), thresholds(r.evals[-1])
        sweeps += 1
    h.check('sweeps', 0 < sweeps <= it)
    if sweeps < it:
        h.check('stops only when settled', h.all(*[h.abs(u - v) < 0.01 for u, v in zip(al, old)]))
    for al_, be_, o, _ in _H[2]:
        h.check('table grids', al_[0] < 0.2 and al_[1] > 5.0 and be_[0] <= -6 and be_[1] >= 6)
        h.check('table options', o['quadrature_n'] == qn and tuple(o['quadrature_bounds']) == tuple(bounds))
    if lut:
        for tag, (_, _, o, _) in enumerate(_H[2]):
            if tag == 0:
                h.check('table density', o['distribution'] is f)
    D = h.lst(out['Difficulty'])
    for i in range(n):
        row = D[i] if isinstance(D[i], list) else [D[i]]
        h.check('threshold columns', len(row) == max(C) - 1)
        for u, v in zip(row, be[i]):
            h.eq('thresholds returned', u, v)
        h.check('unused thresholds', all(not hasattr(u, 'd') and u != u for u in row[C[i] - 1:]))
    for u, v in zip(h.lst(out['Discrimination']), al):
        h.eq('discrimination returned', u, v)
    wrapup(h, out, m, lambda j, t: prod(like(i, j, t, al[i], be[i]) for i in range(n)), th, null, dw, 2 if latent else 0)
    h.unchanged('data', before, d)
    h.reach()


def _ordered(h):
    """threshold searches (inside an item search) return increasing values"""
    last = {}

    def choose(rec, k):
        if rec.depth == 0:
            return None
        key = id(h.w.stack[-1])
        v = h.ctx.fresh('thr', -1.0, 0.0) if key not in last else last[key] + h.ctx.fresh('gap', 0.1, 1.5)
        last[key] = v
        return v
    return choose


def _uniq(orig):
    class P:
        def __getattr__(self, n):
            return getattr(orig, n)

        def unique(self, x, return_counts=False, **k):
            if _H[0] is None or not return_counts:
                return orig.unique(x, return_counts=return_counts, **k)
            _H[1] += 1
            return _H[0].arr(list(range(len(_H[2])))), _H[0].arr(_H[2])
    return P()


UNIQUE = {'girth.utilities.polytomous_utils': {'np': _uniq}}


def ratios(h, g, c):
    """for any counts of the categories"""
    f = h.private('girth.utilities.polytomous_utils', '_solve_for_constants')
    cnt = [h.real('c%d' % k, 1, 50) for k in range(c)]
    _H[0], _H[1], _H[2] = h, 0, cnt
    out = f(h.arr(list(range(c)), int))
    _H[0] = None
    if not _H[1]:
        h.private('girth.utilities.polytomous_utils', 'unique not used')
    O = h.lst(out)
    h.check('one ratio per threshold', len(O) == c - 1)
    for k in range(1, c):
        h.eq('proportion at or above', O[k - 1], sum(cnt[k:]) / sum(cnt))
    h.reach()


def integral(h, g, n, k):
    f = h.private('girth.utilities.polytomous_utils', '_solve_integral_equations')
    a = h.real('a', 0.2, 5)
    p = h.reals('p', k, 0.05, 0.95)
    w = h.reals('w', n, 0.01, 1)
    t = h.reals('t', n, -4, 4)
    out = f(a, p, w, t, None)
    O, P, Wt, Th = h.lst(out), h.lst(p), h.lst(w), h.lst(t)
    for i in range(k):
        r = h.rec(i)
        h.check('range', (r.lo, r.hi) == (-6, 6))
        h.same_objective('proportion', r, lambda e: (P[i] - sum(x * h.expit(a * (y - h.sc(e.x))) for x, y in zip(Wt, Th))) ** 2)
        h.eq('stored', O[i], h.sc(r.result))
    h.reach()
