"""Rasch / one parameter marginal estimation.  Searches are stubs returning arbitrary points; what they are asked to
minimise is compared with the mismatch of the marginal proportion (items) and the marginal likelihood (discrimination)."""
from .spec import INVALID, like2, prod, opts, grid, find

BOUNDS = '1-3 items x 2-4 persons (one free cell: 2x150, 25x4, 7x4), every 0/1/missing pattern in the free cells (each item observed at least once), 1-2 active quadrature nodes, discrimination in [0.2,4]'
ASSUMPTIONS = ['fminbound returns an arbitrary point of its range and evaluates the objective there last; optimality is its contract']


def configs(tier):
    w1, w2 = dict(active=[3], probes={0: 1, 1: 1}), dict(active=[0, 7], probes={0: 1, 1: 1})
    out = []
    for kind in ('rasch', 'alpha', 'onepl'):
        k = 3 if kind == 'onepl' else 1
        out.append(dict(name=kind + '-2x2', fn='mml', args=dict(kind=kind, n=2, m=2), world=w2, max_paths=100, cost=k, overrides=None))
        out.append(dict(name=kind + '-1x3', fn='mml', args=dict(kind=kind, n=1, m=3), world=w2, max_paths=40, cost=k))
        out.append(dict(name=kind + '-2x4', fn='mml', args=dict(kind=kind, n=2, m=4, free=2), world=w2, max_paths=40, cost=k))
        out.append(dict(name=kind + '-3x3', fn='mml', args=dict(kind=kind, n=3, m=3, free=3), world=w1, max_paths=40, cost=k))
        out.append(dict(name=kind + '-default', fn='mml', args=dict(kind=kind, n=2, m=3, free=1, default=True), world=dict(active=[3, 30], probes={0: 1, 1: 1}), cost=k))
    for kind in ('rasch', 'onepl'):
        out.append(dict(name=kind + '-many-persons', fn='mml', args=dict(kind=kind, n=2, m=150, free=1), world=w1, cost=3))
        out.append(dict(name=kind + '-many-items', fn='mml', args=dict(kind=kind, n=25 if kind == 'rasch' else 7, m=4, free=1), world=w1, cost=3))
    if tier == 'thorough':
        for kind in ('rasch', 'onepl'):
            out.append(dict(name=kind + '-3x3-all', fn='mml', args=dict(kind=kind, n=3, m=3, free=6), world=w2, max_paths=800, cost=9))
            out.append(dict(name=kind + '-4x3', fn='mml', args=dict(kind=kind, n=4, m=3, free=3), world=w2, max_paths=100, cost=9))
    for c in out:
        c.pop('overrides', None)
    return out


def data(h, n, m, free=None):
    """responses: `free` cells arbitrary (all when None), the others fixed"""
    X = [[((i * j + i + j) % 3 != 1) * 1 for j in range(m)] for i in range(n)]
    cells = [(i, j) for j in range(m) for i in range(n)]
    if free is not None:
        cells = cells[-free:] if free else []
    for i, j in cells:
        X[i][j] = h.choose('x%d_%d' % (i, j), (0, 1, INVALID))
    for r in X:
        h.assume(any(v != INVALID for v in r))
    return X


def mml(h, g, kind, n, m, free=None, default=False):
    X = data(h, n, m, free)
    opt, qn, bounds, f = opts(h, default)
    d = h.arr(X, int)
    before = h.copy(d)
    if kind == 'rasch':
        a = h.real('a', 0.05, 12)
        out = g.rasch_mml(d, a, opt) if opt else g.rasch_mml(d, discrimination=a)
    elif kind == 'alpha':
        a = h.real('a', 0.05, 12)
        out = g.onepl_mml(d, alpha=a, options=opt)
    else:
        out = g.onepl_mml(d, options=opt) if opt else g.onepl_mml(d)
    B = h.lst(out['Difficulty'])
    h.check('one difficulty per item', len(B) == n)
    th, dw = grid(h, g, qn, bounds, f)
    want = [sum(v == 1 for v in r) / sum(v != INVALID for v in r) for r in X]

    def margin(i, al):
        return lambda e: (sum(w * h.expit(al * (t - e.x)) for t, w in zip(th, dw)) - want[i]) ** 2
    if kind != 'onepl':
        h.eq('discrimination', h.sc(out['Discrimination']), a)
        for i in range(n):
            k = find(h.w.records, B[i], h)
            h.check('difficulty is the result of a search', k is not None)
            if k is not None:
                r = h.w.records[k]
                h.check('range', (r.lo, r.hi) == (-6, 6))
                h.same_objective('proportion correct', r, margin(i, a))
    else:
        h.check('one discrimination search', len(h.w.records) == 1)
        R = h.w.records[0]
        h.check('discrimination range', (R.lo, R.hi) == (0.25, 10))
        h.eq('discrimination', h.sc(out['Discrimination']), h.sc(R.result))
        last = R.evals[-1].children
        pos = [find(last, b, h) for b in B]
        h.check('difficulties belong to the returned discrimination', all(p is not None for p in pos))
        if any(p is None for p in pos):
            return
        for e in R.evals:
            for i in range(n):
                h.same_objective('proportion correct', e.children[pos[i]], margin(i, e.x))

        def nll(e):
            bs = [h.sc(e.children[pos[i]].result) for i in range(n)]
            return -sum(h.log(sum(w * prod(like2(h, X[i][j], t, bs[i], e.x) for i in range(n)) for t, w in zip(th, dw)))
                        for j in range(m))
        h.same_objective('marginal likelihood', R, nll)
    h.unchanged('data', before, d)
    h.reach()
