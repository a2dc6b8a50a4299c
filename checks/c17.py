"""Conditional Rasch estimation: elementary symmetric functions against their definition, and the objective of every
item search against the conditional likelihood of all persons given their sum scores, at the current parameters."""
from itertools import combinations
from .spec import opts, same
from .c16 import data

BOUNDS = 'symmetric functions of 1-5 items; estimation: 2-3 items x 2-4 persons (one free cell: 3x150, 7x4), every complete 0/1 dataset (or up to 6 free cells), 1-2 sweeps (3 thorough), every sequence of search results'
ASSUMPTIONS = ['fminbound returns an arbitrary point of its range and evaluates the objective there last; optimality is its contract']


def configs(tier):
    out = []
    for n in (1, 2, 3, 4, 5):
        out.append(dict(name='symmetric-%d' % n, fn='symmetric', args=dict(n=n)))
    w = dict(probes={0: 1})
    for n, m, it, free in ((2, 3, 1, None), (2, 2, 2, None), (3, 3, 1, 5), (3, 2, 2, 2), (3, 4, 1, 2), (4, 3, 1, 2)):
        out.append(dict(name='fit-%dx%d-%d' % (n, m, it), fn='fit', args=dict(n=n, m=m, it=it, free=free), world=w, max_paths=120, cost=n * it))
    out.append(dict(name='fit-default', fn='fit', args=dict(n=2, m=3, it=2, free=1, disc='default'), world=w))
    out.append(dict(name='symmetric-9', fn='symmetric', args=dict(n=9)))
    out.append(dict(name='fit-many-persons', fn='fit', args=dict(n=3, m=150, it=1, free=1), world=w))
    out.append(dict(name='fit-many-items', fn='fit', args=dict(n=7, m=4, it=1, free=1), world=w))
    if tier == 'thorough':
        for n, m, it, free in ((3, 4, 2, 6), (2, 3, 3, None), (4, 4, 1, 6), (5, 4, 1, 2)):
            out.append(dict(name='fit-%dx%d-%d-t' % (n, m, it), fn='fit', args=dict(n=n, m=m, it=it, free=free), world=w, max_paths=400, cost=n * it))
    return out


def esf(h, bs):
    """gamma_k = sum over k-subsets of prod exp(-b)"""
    eps = [h.exp(-b) for b in bs]
    out = []
    for k in range(len(bs) + 1):
        t = 0
        for c in combinations(range(len(bs)), k):
            v = 1
            for i in c:
                v = v * eps[i]
            t = t + v
        out.append(t)
    return out


def symmetric(h, g, n):
    f = h.private('girth.unidimensional.dichotomous.rasch_conditional', '_symmetric_functions')
    b = h.reals('b', n, -8, 8)
    before = h.copy(b)
    out = f(b)
    h.check('one value per sum score', h.shape(out) == (n + 1,))
    for u, v in zip(h.lst(out), esf(h, h.lst(b))):
        h.eq('symmetric function', u, v)
    h.unchanged('parameters', before, b)
    h.reach()


def complete(h, n, m, free):
    X = [[((i * j + i + j) % 3 != 1) * 1 for j in range(m)] for i in range(n)]
    cells = [(i, j) for j in range(m) for i in range(n)]
    for i, j in (cells if free is None else cells[-free:]):
        X[i][j] = h.choose('x%d_%d' % (i, j), (0, 1))
    return X


def fit(h, g, n, m, it, free, disc='given'):
    X = complete(h, n, m, free)
    h.assume(any(0 < sum(X[i][j] for i in range(n)) < n for j in range(m)))
    d = h.arr(X, int)
    before = h.copy(d)
    if disc == 'given':
        a = h.real('a', 0.02, 20)
        out = g.rasch_conditional(d, a, dict(max_iteration=it))
    else:
        a = 1
        out = g.rasch_conditional(d, options=dict(max_iteration=it))
    recs = h.w.records
    h.check('whole sweeps', len(recs) % n == 0 and 0 < len(recs) <= n * it)
    if len(recs) % n:
        return
    bs = [0.0] * n
    settled = False
    for k, r in enumerate(recs):
        i = k % n
        if i == 0:
            old = list(bs)
        h.check('range', (r.lo, r.hi) == (-5, 5))

        def nll(e):
            b = list(bs)
            b[i] = h.sc(e.x)
            gam = esf(h, b)
            t = 0
            for j in range(m):
                s = sum(X[q][j] for q in range(n))
                if 0 < s < n:
                    t = t + sum(b[q] for q in range(n) if X[q][j]) + h.log(gam[s])
            return t
        h.same_objective('conditional likelihood', r, nll)
        bs[i] = h.sc(r.result)
        mu = sum(bs) / n
        bs = [b - mu for b in bs]
        if i == n - 1:
            settled = h.all(*[h.abs(u - v) < 0.01 for u, v in zip(bs, old)])
    if len(recs) < n * it:
        h.check('stops only when settled', settled)
    B = h.lst(out['Difficulty'])
    h.check('one difficulty per item', len(B) == n)
    for u, v in zip(B, bs):
        h.eq('difficulty', u, v / a)
    h.eq('centred', sum(B), 0)
    h.eq('discrimination', h.sc(out['Discrimination']), a)
    h.unchanged('data', before, d)
    h.reach()
