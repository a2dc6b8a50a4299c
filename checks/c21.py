"""Unfolding marginal estimation.  In every sweep, every item search is compared with the marginal likelihood of all persons
at that item's trial discrimination, location and thresholds (the others at their current values); on return the reference
item has the requested sign and abilities, criteria and difficulties are those of the returned parameters."""
from .spec import INVALID, ggum, prod, opts, grid
from .c19 import recode, data, wrapup, latent_step

BOUNDS = '1-3 items of 2-4 categories x 2-4 persons (free cells in all categories and missing, constant items), 1-2 active nodes, 1-2 sweeps, every reference item and sign (locations of any sign, zero included), latent density fixed or estimated; also large fixed data (over 100 persons, many items, many categories) with at most one free cell'
ASSUMPTIONS = ['fmin_slsqp returns an arbitrary point of its range and evaluates the objective there last; optimality is its contract',
               'every item has at least one observed response']


def configs(tier):
    w1, w2 = dict(active=[3], probes={0: 1}), dict(active=[0, 7], probes={0: 1})
    out = []
    for name, cats, m, free, it, w in (('2-2', (2, 2), 3, 3, 1, w1), ('3-2', (3, 2), 3, 2, 1, w1), ('2-3', (2, 3), 3, 2, 1, w1), ('2-2-two', (2, 2), 3, 1, 1, w2), ('3-2-two', (3, 2), 2, 1, 1, w2),
                                       ('3', (3,), 4, 2, 1, w2), ('4', (4,), 4, 1, 1, w2), ('4-2', (4, 2), 4, 1, 1, w1),
                                       ('2-2-sweeps', (2, 2), 3, 1, 2, w1), ('2-3-sweeps', (2, 3), 3, 1, 2, w1), ('3-2-sweeps', (3, 2), 3, 1, 2, w1),
                                       ('2-2-2', (2, 2, 2), 2, 2, 1, w1), ('2-3-2', (2, 3, 2), 3, 1, 1, w1), ('constant', (2, 2), 2, 3, 1, w1),
                                       ('shifted', (3, 2), 3, 1, 1, w1), ('many-persons', (3, 2), 140, 0, 1, w1), ('many-items', (2, 3) * 3, 4, 0, 1, w1), ('many-categories', (8, 2), 10, 0, 1, w1)):
        out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, base=4 if name == 'shifted' else 1), exp_den=4, world=w, max_paths=80, cost=len(cats) * it))
    for q, v in ((0, -1), (1, 1), (1, -1), (2, -3), (0, 2)):
        out.append(dict(name='sign%d%+d' % (q, v), fn='fit', args=dict(cats=(2, 3, 2) if q == 2 else (2, 2), m=2, free=0, it=1, sign=(q, v)), exp_den=4, world=w1, cost=3))
    out.append(dict(name='zero', fn='fit', args=dict(cats=(2, 2), m=2, free=0, it=1, sign=(0, -1), zero=True), exp_den=4, world=w1))
    out.append(dict(name='defaults', fn='fit', args=dict(cats=(2, 2), m=3, free=1, it=1, default=True), exp_den=4, world=w1, cost=2))
    out.append(dict(name='latent-3-sweeps', fn='fit', args=dict(cats=(2,), m=2, free=0, it=3, latent=True), exp_den=4, world=dict(active=[3], probes={0: 1, 1: 0}), cost=12))
    out.append(dict(name='latent', fn='fit', args=dict(cats=(2, 2), m=3, free=0, it=2, latent=True), exp_den=4, world=dict(active=[3], probes={0: 1}), cost=9, budget=60))
    if tier == 'thorough':
        for name, cats, m, free, it, w in (('t-3-3', (3, 3), 4, 4, 1, w2), ('t-3-2-sweeps', (3, 2), 3, 2, 3, w1), ('t-2-3-2-3', (2, 3, 2, 3), 3, 2, 1, w1),
                                           ('t-5', (5, 2), 5, 2, 1, w1)):
            out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it), exp_den=4, world=w, max_paths=300, cost=9))
    return out


def fit(h, g, cats, m, free, it, latent=False, base=1, default=False, sign=None, zero=False):
    n = len(cats)
    X = data(h, cats, m, free, base, True)
    Y, C = recode(X)
    if latent:
        qn, bounds, f = 8, (-3.0, 3.0), h.uf('prior')
        opt = dict(quadrature_n=qn, quadrature_bounds=bounds, number_of_samples=5, distribution=f, estimate_distribution=True, max_iteration=it)
    else:
        opt, qn, bounds, f = opts(h, default, max_iteration=it)
    d = h.arr(X, int)
    before, keep = h.copy(d), dict(opt)
    if zero:                            # the reference item's search ends at location zero
        h.w.choose = lambda rec, k: [h.ctx.fresh('a', 0.25, 4.0), 0.0] + [h.ctx.fresh('t', -6.0, 6.0)] * (len(rec.lo) - 2) if len(h.w.records) == 1 and k == 'vm0' else None
    ref, want = sign or (0, 1)
    out = g.gum_mml(d, options=opt) if sign is None else g.gum_mml(d, sign, opt)
    h.check('options unchanged', opt == keep)
    th, null = grid(h, g, qn, bounds, f)
    dw = null
    al, de = [1.0] * n, [0.0] * n
    be = [[-1 + 2 * k / (c - 2) for k in range(c - 1)] if c > 2 else [-1.0] for c in C]

    def like(i, j, t, a, q, b):
        return ggum(h, t, q, b, a)[Y[i][j]] if Y[i][j] != INVALID else 1
    recs = list(h.w.records)
    sweeps = 0
    while recs:
        old = list(al)
        if latent and sweeps:
            dw = latent_step(h, g, recs.pop(0), [[prod(like(i, j, t, al[i], de[i], be[i]) for i in range(n)) for t in th] for j in range(m)], th, qn, bounds)
        h.check('one search per item', len(recs) >= n)
        if len(recs) < n:
            return
        rs, recs = recs[:n], recs[n:]
        for i, r in enumerate(rs):
            h.check('one parameter per discrimination, location and threshold', len(r.lo) == C[i] + 1 and r.lo[0] > 0)
            h.check('ranges', [float(q) for q in r.lo] == [0.25, -2] + [-6] * (C[i] - 1) and [float(q) for q in r.hi] == [4, 2] + [6] * (C[i] - 1))

            def nll(e):
                v = [h.sc(q) for q in h.lst(e.x)]
                A, D, B = list(al), list(de), list(be)
                A[i], D[i], B[i] = v[0], v[1], v[2:]
                return -sum(h.log(sum(w * prod(like(q, j, t, A[q], D[q], B[q]) for q in range(n)) for t, w in zip(th, dw))) for j in range(m))
            h.same_objective('marginal likelihood', r, nll)
            v = [h.sc(q) for q in h.lst(r.result)]
            al[i], de[i], be[i] = v[0], v[1], v[2:]
        sweeps += 1
    h.check('sweeps', 0 < sweeps <= it)
    if sweeps < it:
        h.check('stops only when settled', h.all(*[h.abs(u - v) < 0.01 for u, v in zip(al, old)]))
    L = [h.sc(v) for v in h.lst(out['Delta'])]
    h.check('one location per item', len(L) == n)
    h.check('reference sign', L[ref] * want >= 0)
    flip = [h.all(*[h.abs(u - s * v) <= 1e-6 for u, v in zip(L, de)]) for s in (1, -1)]
    h.check('locations keep their magnitude', h.any(*flip))
    T, D = h.lst(out['Tau']), h.lst(out['Difficulties'])
    w = max(C) - 1
    for i in range(n):
        h.check('threshold columns', len(T[i]) == w and len(D[i]) == 2 * w + 1)
        for u, v in zip(T[i], be[i]):
            h.eq('thresholds returned', u, v)
        h.check('unused thresholds', all(not hasattr(u, 'd') and u != u for u in T[i][C[i] - 1:] + D[i][C[i] - 1:w]))
        for k in range(C[i] - 1):
            h.eq('difficulty below the location', D[i][k], L[i] + be[i][k])
            h.eq('difficulty above the location', D[i][2 * w - k], L[i] - be[i][k])
        h.eq('difficulty at the location', D[i][w], L[i])
    for u, v in zip(h.lst(out['Discrimination']), al):
        h.eq('discrimination returned', u, v)
    wrapup(h, out, m, lambda j, t: prod(like(i, j, t, al[i], L[i], be[i]) for i in range(n)), th, null, dw, 2 if latent else 0)
    h.unchanged('data', before, d)
    h.reach()
