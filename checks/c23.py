"""Three parameter marginal estimation.  In every sweep, every item search is compared with the marginal likelihood of all
persons at that item's trial discrimination and guessing, with the difficulty its margin search returned there (the other
items at their current values); the returned triples with those of the last evaluations."""
from .spec import INVALID, like2, prod, opts, grid, same
from .c16 import data

BOUNDS = '1-3 items x 2-4 persons (one free cell: 2x150, 6x3), every 0/1/missing pattern in the free cells (each item observed at least once), 1-2 active nodes, 1-3 sweeps'
ASSUMPTIONS = ['fmin_slsqp and fminbound return an arbitrary point of their range and evaluate the objective there last; optimality is their contract', 'at least two distinct response patterns (a single one raises an error)']


def configs(tier):
    w1, w2 = dict(active=[3], probes={0: 1, 1: 1}), dict(active=[0, 7], probes={0: 1, 1: 1})
    out = []
    for name, n, m, free, it, w in (('1x2', 1, 2, None, 1, w2), ('1x4', 1, 4, 2, 1, w2), ('2x2', 2, 2, 3, 1, w2), ('2x3', 2, 3, 2, 1, w2), ('3x2', 3, 2, 2, 1, w1),
                                    ('2x2-sweeps', 2, 2, 2, 2, w1), ('1x3-sweeps', 1, 3, 2, 3, w1), ('2x3-sweeps', 2, 3, 1, 2, w1)):
        out.append(dict(name=name, fn='fit', args=dict(n=n, m=m, free=free, it=it), world=w, max_paths=60, cost=n * it))
    out.append(dict(name='defaults', fn='fit', args=dict(n=2, m=2, free=1, it=1, default=True), world=dict(active=[3, 30], probes={0: 1, 1: 1}), cost=2))
    for name, n, m in (('many-persons', 2, 150), ('many-items', 6, 3)):
        out.append(dict(name=name, fn='fit', args=dict(n=n, m=m, free=1, it=1), world=w1, max_paths=60, cost=3))
    if tier == 'thorough':
        for name, n, m, free, it, w in (('t-2x2', 2, 2, None, 1, w2), ('t-3x3', 3, 3, 3, 1, w2), ('t-3x2-sweeps', 3, 2, 2, 2, w1), ('t-2x4', 2, 4, 4, 1, w2)):
            out.append(dict(name=name, fn='fit', args=dict(n=n, m=m, free=free, it=it), world=w, max_paths=400, cost=9))
    return out


def fit(h, g, n, m, free, it, default=False):
    X = data(h, n, m, free)
    h.assume(len({tuple(c) for c in zip(*X)}) > 1)      # (one pattern only: refused with an error)
    opt, qn, bounds, f = opts(h, default, max_iteration=it)
    d = h.arr(X, int)
    before, keep = h.copy(d), dict(opt)
    out = g.threepl_mml(d, opt)
    h.check('options unchanged', opt == keep)
    th, dw = grid(h, g, qn, bounds, f)
    want = [sum(v == 1 for v in r) / sum(v != INVALID for v in r) for r in X]
    par = [(1.0, 0.0, 0.0)] * n        # discrimination, difficulty, guessing
    recs = list(h.w.records)
    sweeps = 0
    while recs:
        old = list(par)
        h.check('one search per item', len(recs) >= n)
        if len(recs) < n:
            return
        rs, recs = recs[:n], recs[n:]
        for i, r in enumerate(rs):
            h.check('parameter ranges', [float(v) for v in r.lo] == [0.25, 0] and [float(v) for v in r.hi] == [4, 0.33])

            def trial(e):
                a, c = [h.sc(v) for v in h.lst(e.x)]
                h.check('one difficulty search', len(e.children) == 1)
                k = e.children[0]
                h.check('difficulty range', (k.lo, k.hi) == (-6, 6))
                h.same_objective('proportion correct', k, lambda q: ((want[i] - c) / (1 - c) - sum(w * h.expit(a * (t - h.sc(q.x))) for t, w in zip(th, dw))) ** 2)
                return a, h.sc(k.result), c

            def nll(e):
                P = list(par)
                P[i] = trial(e)
                return -sum(h.log(sum(w * prod(like2(h, X[q][j], t, P[q][1], P[q][0], P[q][2]) for q in range(n)) for t, w in zip(th, dw)))
                            for j in range(m))
            h.same_objective('marginal likelihood', r, nll)
            par[i] = trial(r.evals[-1])
            h.check('search result is the last trial', all(same(u, h.sc(v)) for u, v in zip((par[i][0], par[i][2]), h.lst(r.result))))
        sweeps += 1
    h.check('sweeps', 0 < sweeps <= it)
    if sweeps < it:
        h.check('stops only when settled', h.all(*[h.abs(u[0] - v[0]) < 0.01 for u, v in zip(par, old)]))
    for i in range(n):
        for name, v in zip(('Discrimination', 'Difficulty', 'Guessing'), par[i]):
            got = h.lst(out[name])
            h.check('one value per item', len(got) == n)
            h.eq(name + ' returned', h.sc(got[i]), v)
    h.unchanged('data', before, d)
    h.reach()
