"""Multidimensional graded / two parameter estimation.  In every sweep, every item search is compared with the marginal
likelihood over the product quadrature of all persons at that item's trial slopes, with intercepts minus the slope length
times the threshold that reproduces its proportions at that length (the others at their current values); returned
parameters, criteria and abilities with those of the last evaluations.  The initial guess separately."""
from .spec import INVALID, grm_slope, prod, opts, quad, active
from .c19 import recode, data, ratio, lut_value, _H, _lut

BOUNDS = '2-4 items of 2-3 categories x 2-4 persons (free cells in all categories and missing, constant items), 2-3 factors, 1-2 active nodes per factor, 1-2 sweeps, slope lengths in [0.5,5.9]; also large fixed data (over 100 persons, many items, many categories) with at most one free cell'
ASSUMPTIONS = ['searches return an arbitrary point of their range and evaluate the objective there last; optimality is their contract',
               'the look-up table is an arbitrary increasing function of discrimination and proportion (its accuracy is C07)',
               'every item has at least one observed response; an item after the first whose observed responses are all at the dataset minimum is a recorded finding (see C19)',
               'the rank, factor and rotation routines used for the initial guess are those of C30, C35 and numpy (QR)']
_M = 'girth.multidimensional.multidimensional_mml_methods'
_G = [None]


def _guess(orig):
    def guess(*a, **k):
        _G[0] = [a, k, None]
        h, n, f = _H[0], a[0].shape[0], a[1]
        v = [[0.0 if i + q > n - 1 else h.ctx.fresh('guess', 0.5, 1.5) if i + q == n - 1 else h.ctx.fresh('guess', -1.5, 1.5) for q in range(f)] for i in range(n)]
        for i in range(n - f):
            v[i][0] = h.ctx.fresh('guess', 0.5, 1.5)
        _G[0][2] = v
        return h.arr(v)
    return guess


LUT = {_M: {'create_beta_LUT': _lut, 'initial_guess_md': _guess}}


def configs(tier):
    B = (-2.0, 3.0)
    w1, w2 = dict(active=[3], probes={0: 1, 1: 0}, spans={8: B}), dict(active=[0, 7], probes={0: 1, 1: 0}, spans={8: B})
    out = []
    for name, cats, m, free, it, lut, guess, nf, w in (
            ('2-2', (2, 2), 3, 2, 1, True, False, 2, w2), ('3-2', (3, 2), 3, 1, 1, True, False, 2, w1), ('2-3', (2, 3), 3, 1, 1, True, False, 2, w2),
            ('2-2-2', (2, 2, 2), 2, 2, 1, True, False, 2, w1), ('2-3-2', (2, 3, 2), 3, 0, 1, True, False, 2, w1),
            ('2-2-2-two', (2, 2, 2), 2, 1, 1, True, False, 2, w2),
            ('2-2-sweeps', (2, 2), 2, 1, 2, True, False, 2, w1), ('2-2-2-sweeps', (2, 2, 2), 2, 0, 2, True, False, 2, w1),
            ('guess-2-2', (2, 2), 3, 1, 1, True, True, 2, w2), ('guess-2-3-2', (2, 3, 2), 3, 1, 1, True, True, 2, w1),
            ('guess-2-2-2-2', (2, 2, 2, 2), 2, 0, 1, True, True, 2, w1),
            ('three', (2, 2, 2), 2, 0, 1, True, False, 3, w1), ('three-guess', (2, 2, 2, 2), 2, 0, 1, True, True, 3, w1),
            ('solve-2-2', (2, 2), 3, 1, 1, False, False, 2, w1), ('solve-3-2', (3, 2), 3, 1, 1, False, False, 2, w1), ('solve-guess', (2, 2), 2, 1, 1, False, True, 2, w1),
            ('constant', (2, 2), 2, 2, 1, True, False, 2, w1),
            ('many-persons', (3, 2), 130, 0, 1, True, False, 2, w1), ('many-items', (2, 3) * 3, 3, 0, 1, True, False, 2, w1), ('many-categories', (7, 2), 9, 0, 1, True, False, 2, w1)):
        out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, lut=lut, guess=guess, nf=nf, box=B), world=w, max_paths=60, cost=len(cats) * it, overrides='LUT'))
    out.append(dict(name='twopl', fn='fit', args=dict(cats=(2, 2), m=3, free=2, it=1, lut=True, guess=False, nf=2, box=B, two=True), world=w1, max_paths=60, overrides='LUT'))
    out.append(dict(name='all-lowest', fn='fit', args=dict(cats=(2, 2), m=2, free=0, it=1, lut=True, guess=False, nf=2, box=B, known=True), world=w1, overrides='LUT'))
    out.append(dict(name='one-factor', fn='refuse', args={}))
    for n, nf in ((3, 2), (4, 2), (4, 3), (2, 1)):
        out.append(dict(name='initial-%d-%d' % (n, nf), fn='initial', args=dict(n=n, nf=nf), overrides='INIT'))
    if tier == 'thorough':
        for name, cats, m, free, it, lut, guess, nf, w in (
                ('t-3-2', (3, 2), 3, 3, 1, True, False, 2, w2), ('t-2-2-2-sweeps', (2, 2, 2), 3, 1, 2, True, False, 2, w1), ('t-2-2-2-2', (2, 2, 2, 2), 3, 2, 1, True, False, 2, w2),
                ('t-three-sweeps', (2, 2, 2), 2, 0, 2, True, False, 3, w1)):
            out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, lut=lut, guess=guess, nf=nf, box=B), world=w, max_paths=200, cost=9, overrides='LUT'))
    return out


def _choose(h):
    """slope searches return vectors of length 0.5 or more, threshold searches increasing values"""
    last = {}

    def choose(rec, k):
        if rec.kind == 'slsqp':
            lo, hi = list(rec.lo), list(rec.hi)
            if k == 'vm0':
                lo[0], hi[0] = max(lo[0], 0.5), min(hi[0], 3.0)
            else:
                lo[0], hi[0] = (0.5, 3.0) if lo[0] > -0.5 else (-3.0, -0.5)
            return [h.ctx.fresh('slope', float(u), float(v)) for u, v in zip(lo, hi)]
        if rec.depth == 0 and (rec.lo, rec.hi) != (-6, 6):
            return None
        key = id(h.w.stack[-1]) if rec.depth else 'start%d' % (len(h.w.records) - 1)
        v = h.ctx.fresh('thr', -1.0, 0.0) if key not in last else last[key] + h.ctx.fresh('gap', 0.1, 1.5)
        last[key] = v
        return v
    return choose


def _vec(h, x):
    v = h.lst(x)
    return [h.sc(u) for u in v] if isinstance(v, list) else [h.sc(x)]


def fit(h, g, cats, m, free, it, lut, guess, nf, box, two=False, known=False):
    _H[:], _G[0] = [h, 0, [], None], None
    n = len(cats)
    X = data(h, cats, m, free, 1, known)
    if known:
        X[1] = [1] * m
    Y, C = recode(X)
    R = ratio(Y, C)
    qn, f = 8, h.uf('prior')
    opt = dict(quadrature_n=qn, quadrature_bounds=box, distribution=f, use_LUT=lut, max_iteration=it, initial_guess=guess)
    h.w.choose = _choose(h)
    d = h.arr(X, int)
    before, keep = h.copy(d), dict(opt)
    out = (g.multidimensional_twopl_mml if two else g.multidimensional_grm_mml)(d, nf, opt)
    h.w.choose = None
    h.check('options unchanged', opt == keep)
    if lut and not _H[1]:
        h.private(_M, 'create_beta_LUT not used')
    if guess and not _G[0]:
        h.private(_M, 'initial_guess_md not used')
    xs, ws = active(*quad(h, g, qn, *box))
    one = [w * h.sc(f(x)) for x, w in zip(xs, ws)]
    th, dw = [()], [1]
    for _ in range(nf):
        dw = [u * v for u in dw for v in one]
        th = [p + (x,) for p in th for x in xs]
    recs = list(h.w.records)

    def length(a):
        return h.sqrt(sum(v * v for v in a))
    if guess:
        h.check('initial guess of this dataset', _G[0][0][0] is d or h.lst(_G[0][0][0]) == X)
        al = [list(r) for r in _G[0][2]]
        de = []
        for i in range(n):
            u = length(al[i])
            if lut:
                b = [lut_value(h, u, p, 0) for p in R[i]]
            else:
                c, recs = recs[:C[i] - 1], recs[C[i] - 1:]
                b = [h.sc(r.result) for r in c]
            de.append([-u * v for v in b])
    else:
        al = [[1.0] + [0.0] * (nf - 1) for _ in range(n)]
        de = [[-1 + 2 * k / (c - 2) for k in range(c - 1)] if c > 2 else [-1.0] for c in C]

    def like(i, j, t, a, b):
        return grm_slope(h, sum(p * q for p, q in zip(a, t)), b)[Y[i][j]] if Y[i][j] != INVALID else 1
    sweeps = 0
    while recs:
        old = [list(a) for a in al]
        h.check('one search per item', len(recs) >= n)
        if len(recs) < n:
            return
        rs, recs = recs[:n], recs[n:]
        for i, r in enumerate(rs):
            k = min(nf, n - i)
            lo, hi = [[float(h.sc(v)) for v in (h.lst(z) if isinstance(h.lst(z), list) else [z])] for z in (r.lo, r.hi)]
            h.check('free slopes', len(lo) == k)
            if len(lo) != k:
                return
            inner = [0.15, 4] if guess else [-3, 3]
            h.check('ranges', [lo, hi] == [[v] for v in (0.2, 5)] if i == n - 1 else [[u, v] for u, v in zip(lo, hi)] == [inner if i + q == n - 1 else [-3, 3] for q in range(k)])

            def trial(e):
                a = _vec(h, e.x)
                u = length(a)
                if lut:
                    b = [lut_value(h, u, p, 0) for p in R[i]]
                else:
                    h.check('one search per threshold', len(e.children) == C[i] - 1)
                    b = [h.sc(c.result) for c in e.children]
                return a + [0.0] * (nf - k), [-u * v for v in b]
            if not lut:
                for e in r.evals:
                    u = length(_vec(h, e.x))
                    for c, p in zip(e.children, R[i]):
                        if len(c.evals) > 1:
                            h.same_objective('category proportion', c, lambda q: (p - sum(w * h.expit(u * (t - h.sc(q.x))) for t, w in zip(xs, one))) ** 2)

            def nll(e):
                A, D = list(al), list(de)
                A[i], D[i] = trial(e)
                return -sum(h.log(sum(w * prod(like(q, j, t, A[q], D[q]) for q in range(n)) for t, w in zip(th, dw))) for j in range(m))
            h.same_objective('marginal likelihood', r, nll)
            al[i], de[i] = trial(r.evals[-1])
        sweeps += 1
    h.check('sweeps', 0 < sweeps <= it)
    if sweeps < it:
        h.check('stops only when settled', h.all(*[h.abs(u - v) < 0.01 for p, q in zip(al, old) for u, v in zip(p, q)]))
    D, A = h.lst(out['Difficulty']), h.lst(out['Discrimination'])
    h.check('one row per item', len(D) == n and len(A) == n)
    for i in range(n):
        row = D[i] if isinstance(D[i], list) else [D[i]]
        h.check('intercept columns', len(row) == max(C) - 1)
        for u, v in zip(row, de[i]):
            h.eq('intercepts returned', u, v)
        h.check('unused intercepts', all(not hasattr(u, 'd') and u != u for u in row[C[i] - 1:]))
        for u, v in zip(A[i], al[i]):
            h.eq('slopes returned', u, v)
    L = [[prod(like(i, j, t, al[i], de[i]) for i in range(n)) for t in th] for j in range(m)]
    ll = sum(h.log(sum(v * w for v, w in zip(r, dw))) for r in L)
    for name in ('AIC', 'BIC'):
        h.eq(name, h.sc(out[name]), -2 * ll)
    h.eq('LL', h.sc(out['LL']), ll)
    ab = h.lst(out['Ability'])
    h.check('factors by persons', len(ab) == nf and all(len(r) == m for r in ab))
    if not known:
        for j in range(m):
            den = sum(v * w for v, w in zip(L[j], dw))
            for q in range(nf):
                h.eq('ability', ab[q][j], sum(v * w * t[q] for v, w, t in zip(L[j], dw, th)) / den)
    h.unchanged('data', before, d)
    h.reach()


def refuse(h, g):
    d = h.arr([[1, 2, 1], [2, 1, 2]], int)
    for fn in (g.multidimensional_twopl_mml, g.multidimensional_grm_mml):
        for k in (1, 0, -1):
            h.check('fewer than two factors are refused', h.outcome(lambda: fn(d, k))[0] == 'raise')
    h.reach()


_I = {}


def _corr(orig):
    def corr(dataset, start, stop, num=1):
        h, n = _H[0], dataset.shape[0]
        _I['corr'] = (h.lst(dataset), start, stop, num)
        c = {}
        for i in range(n):
            for j in range(i):
                c[i, j] = c[j, i] = h.ctx.fresh('rho', -0.9, 0.9)
        _I['c'] = [[1.0 if i == j else c[i, j] for j in range(n)] for i in range(n)]
        return h.arr(_I['c'])
    return corr


def _mlfa(orig):
    def mlfa(c, nf, *a, **k):
        h, n = _H[0], c.shape[0]
        _I['in'] = (h.lst(c), nf)
        _I['load'] = [[h.ctx.fresh('load', -0.9, 0.9) for _ in range(nf)] for _ in range(n)]
        _I['uniq'] = [h.ctx.fresh('uniq', 0.1, 0.9) for _ in range(n)]
        return h.arr(_I['load']), h.arr([1.0] * nf), h.arr(_I['uniq'])
    return mlfa


INIT = {'girth.multidimensional.multidimensional_initial_guess': {'polychoric_correlation': _corr, 'mlfa': _mlfa, 'maximum_likelihood_factor_analysis': _mlfa}}


def initial(h, g, n, nf):
    _H[0] = h
    _I.clear()
    X = [[2 + (i + j) % 3 for j in range(4)] for i in range(n)]
    X[0][0] = h.choose('x', (1, 2, 5, INVALID))
    d = h.arr(X, int)
    before = h.copy(d)
    out = g.initial_guess_md(d, nf, dict(num_processors=2))
    if 'corr' not in _I or 'in' not in _I:
        h.private('girth.multidimensional.multidimensional_initial_guess', 'correlation or factors not used')
    obs = [v for r in X for v in r if v != INVALID]
    D, lo, hi, num = _I['corr']
    h.check('correlation of the dataset', D == X)
    h.check('category range', (int(lo), int(hi)) == (min(obs), max(obs)))
    h.check('processors', num == 2)
    h.eq('factors of the correlation', _I['in'][0], _I['c'])
    h.check('number of factors', _I['in'][1] == nf)
    est = [[1.7 * v / h.sqrt(u) for v in r] for r, u in zip(_I['load'], _I['uniq'])]
    G = h.lst(out)
    h.check('shape', len(G) == n and all(len(r) == nf for r in G))
    if nf == 1:
        h.eq('slopes', G, est)
        h.reach()
        return
    q, _ = g.np.linalg.qr(h.arr([est[n - 1 - k] for k in range(nf)]).T)
    rot = h.lst(h.arr(est) @ q)
    for k in range(nf):
        v = rot[n - 1 - k][k]
        s = h.ite(v < 0, -1, 1)
        for i in range(n):
            h.eq('rotated slopes', G[i][k], rot[i][k] * s)
        h.check('positive diagonal', G[n - 1 - k][k] >= 0)
    h.unchanged('data', before, d)
    h.reach()
