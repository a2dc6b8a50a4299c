"""Joint estimation for dichotomous items: the objective of every ability and every item search, in every sweep, against
the likelihood of the observed responses at the current values (patterns weighted by their multiplicities)."""
from .spec import INVALID, find

BOUNDS = '2-3 items x 3-4 persons (one free cell: 3x150, 9x4), free cells in {0,1,missing}, at least two informative patterns, 1-2 sweeps, every sequence of search results'
ASSUMPTIONS = ['fminbound/fmin_slsqp return an arbitrary point of their range and evaluate the objective there last; optimality is their contract',
               'abilities of one sweep are not all equal; every item has a right and a wrong answer']


def configs(tier):
    out = []
    w = dict(probes={0: 1, 1: 1})
    for kind in ('rasch', 'onepl', 'twopl'):
        for n, m, it, free in ((2, 3, 1, 2), (2, 4, 1, 2), (3, 3, 1, 2), (2, 3, 2, 1), (3, 4, 2, 0), (3, 4, 1, 1)):
            out.append(dict(name='%s-%dx%d-%d' % (kind, n, m, it), fn='jml', args=dict(kind=kind, n=n, m=m, it=it, free=free), world=w, max_paths=60,
                            cost=n * it + (3 if kind == 'onepl' else 0)))
        out.append(dict(name=kind + '-dup', fn='jml', args=dict(kind=kind, n=2, m=5, it=1, free=1), world=w, max_paths=60))
        out.append(dict(name=kind + '-many-persons', fn='jml', args=dict(kind=kind, n=3, m=150, it=1, free=1), world=w, max_paths=60, cost=2))
        out.append(dict(name=kind + '-many-items', fn='jml', args=dict(kind=kind, n=9, m=4, it=1, free=1), world=w, max_paths=60, cost=2))
        if tier == 'thorough':
            for n, m, it, free in ((3, 4, 1, 4), (2, 4, 3, 0), (4, 4, 1, 1), (3, 3, 2, 2)):
                out.append(dict(name='%s-%dx%d-%d-t' % (kind, n, m, it), fn='jml', args=dict(kind=kind, n=n, m=m, it=it, free=free), world=w, max_paths=300, cost=n * it))
    out.append(dict(name='rasch-default', fn='jml', args=dict(kind='rasch', n=2, m=3, it=1, free=1, disc=None), world=w))
    out.append(dict(name='rasch-int', fn='jml', args=dict(kind='rasch', n=2, m=3, it=1, free=1, disc=2), world=w))
    return out


FIX = {2: [(0, 1), (1, 0), (1, 0), (0, 1), (1, 0)],
       3: [(0, 1, 1), (1, 0, 0), (1, 1, 0), (0, 0, 1), (1, 0, 0)],
       4: [(0, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 1), (0, 0, 1, 1)]}


def cells(h, n, m, free):
    F = FIX[n] if n in FIX else [[(i + 1 >> j) & 1 for i in range(n)] for j in range(m)]
    X = [[F[j % len(F)][i] for j in range(m)] for i in range(n)]
    pos = [(i, j) for j in range(m) for i in range(n)]
    for i, j in pos[len(pos) - free:]:
        X[i][j] = h.choose('x%d_%d' % (i, j), (0, 1, INVALID))
    return X


def patterns(X):
    """distinct response patterns in lexicographic order with multiplicities, uninformative ones dropped"""
    cols = list(zip(*X))
    out = [(p, cols.count(p)) for p in sorted(set(cols))]
    return [(p, c) for p, c in out if len({v for v in p if v != INVALID}) > 1]


def _nl(h, v, z):
    """minus log probability of response v (right with probability expit(z))"""
    return h.log(1 + h.exp(-z if v == 1 else z)) if v != INVALID else 0


def jml(h, g, kind, n, m, it, free, disc='given'):
    X = cells(h, n, m, free)
    for r in X:
        h.assume(0 in r and 1 in r)
    P = patterns(X)
    h.assume(len(P) > 1)
    np_ = len(P)
    d = h.arr(X, int)
    before = h.copy(d)
    o = dict(max_iteration=it)
    a = 1
    if kind == 'rasch':
        if disc is None:
            out = g.rasch_jml(d, options=o)
        else:
            a = h.real('a', 0.05, 8) if disc == 'given' else disc
            out = g.rasch_jml(d, a, o)
    else:
        out = (g.onepl_jml if kind == 'onepl' else g.twopl_jml)(d, o)
    al = [a] * n
    be = [h.sqrt(1 + a * a / 3) * h.log(r.count(0) / r.count(1)) / a for r in X]
    recs = h.w.records
    per = np_ + (1 if kind == 'onepl' else n)
    h.check('whole sweeps', 0 < len(recs) <= per * it and len(recs) % per == 0)
    if len(recs) % per:
        return
    sweeps = len(recs) // per
    for s in range(sweeps):
        old = list(be)
        rs = recs[s * per:(s + 1) * per]
        th = []
        for (p, c), r in zip(P, rs):
            h.check('ability range', (r.lo, r.hi) == (-6, 6))
            A, B = list(al), list(be)
            h.same_objective('ability', r, lambda e: sum(_nl(h, p[i], A[i] * (h.sc(e.x) - B[i])) for i in range(n)))
            th.append(h.sc(r.result))
        mu = sum(th) / np_
        th = [t - mu for t in th]
        v = sum((t - sum(th) / np_) ** 2 for t in th) / (np_ - 1)
        h.assume(v > 0.01)
        sd = h.sqrt(v)
        th = [t / sd for t in th]

        def item(i, alpha, beta):
            return sum(c * _nl(h, p[i], alpha * (t - beta)) for (p, c), t in zip(P, th))
        rs = rs[np_:]
        if kind == 'onepl':
            R = rs[0]
            h.check('discrimination range', (R.lo, R.hi) == (0.25, 5))
            h.check('one search per item', all(len(e.children) == n for e in R.evals))
            if any(len(e.children) != n for e in R.evals):
                return
            for e in R.evals:
                for i, c in enumerate(e.children):
                    h.check('difficulty range', (c.lo, c.hi) == (-6, 6))
                    h.same_objective('difficulty', c, lambda q: item(i, h.sc(e.x), h.sc(q.x)))
            h.same_objective('discrimination', R, lambda e: sum(item(i, h.sc(e.x), h.sc(e.children[i].result)) for i in range(n)))
            al = [h.sc(R.result)] * n
            be = [h.sc(c.result) for c in R.evals[-1].children]
        else:
            for i, r in enumerate(rs):
                if kind == 'rasch':
                    h.check('difficulty range', (r.lo, r.hi) == (-6, 6))
                    h.same_objective('difficulty', r, lambda e: item(i, al[i], h.sc(e.x)))
                    be[i] = h.sc(r.result)
                else:
                    h.check('item ranges', (r.lo, r.hi) == ([0.25, -6], [4, 6]))
                    h.same_objective('item', r, lambda e: item(i, h.lst(e.x)[0], h.lst(e.x)[1]))
                    al[i], be[i] = h.lst(r.result)
    if sweeps < it:
        h.check('stops only when settled', h.all(*[h.abs(u - v) < 0.01 for u, v in zip(be, old)]))
    D = h.lst(out['Difficulty'])
    h.check('one difficulty per item', len(D) == n)
    for u, v in zip(D, be):
        h.eq('difficulty returned', u, v)
    if kind == 'onepl':
        h.eq('discrimination returned', h.sc(out['Discrimination']), al[0])
    else:
        for u, v in zip(h.lst(out['Discrimination']), al):
            h.eq('discrimination returned', u, v)
    h.unchanged('data', before, d)
    h.reach()
