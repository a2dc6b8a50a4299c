"""Joint estimation of graded and partial credit items: the objective of every ability and every item search, in every
sweep, against the likelihood of the observed responses at the current values."""
from .spec import INVALID, grm, pcm, prod
from .c19 import recode, data

BOUNDS = '2-3 items of 2-4 categories x 2-4 persons (free cells in all categories and missing, constant items), 1-2 sweeps, every sequence of search results; also large fixed data (over 100 persons, many items, many categories) with at most one free cell'
ASSUMPTIONS = ['fminbound/fmin_slsqp return an arbitrary point of their range (graded: with increasing thresholds, as constrained) and evaluate the objective there last; optimality is their contract',
               'abilities of one sweep are not all equal; at least two persons and, per item, one observed response remain after trimming']


def configs(tier):
    w = dict(probes={0: 1})
    out = []
    for kind in ('grm', 'pcm'):
        for name, cats, m, free, it in (('2-2', (2, 2), 3, 3, 1), ('3-2', (3, 2), 3, 2, 1), ('2-3', (2, 3), 3, 2, 1), ('4-2', (4, 2), 4, 1, 1),
                                        ('2-3-2', (2, 3, 2), 3, 1, 1), ('2-2-sweeps', (2, 2), 2, 1, 2), ('3-2-sweeps', (3, 2), 3, 0, 2), ('2-3-sweeps', (2, 3), 3, 0, 2),
                                        ('shifted', (3, 2), 3, 1, 1), ('constant', (2, 2), 2, 3, 1),
                                        ('many-persons', (3, 2), 140, 0, 1), ('many-items', (2, 3) * 4, 7, 0, 1), ('many-categories', (8, 2), 10, 0, 1)):
            out.append(dict(name='%s-%s' % (kind, name), fn='jml', args=dict(kind=kind, cats=cats, m=m, free=free, it=it, base=4 if name == 'shifted' else 1),
                            world=w, max_paths=60, cost=len(cats) * it))
        if tier == 'thorough':
            for name, cats, m, free, it in (('t-3-3', (3, 3), 4, 4, 1), ('t-2-2-sweeps', (2, 2), 3, 2, 3), ('t-2-3-2-3', (2, 3, 2, 3), 3, 2, 1), ('t-5-2', (5, 2), 5, 2, 1)):
                out.append(dict(name='%s-%s' % (kind, name), fn='jml', args=dict(kind=kind, cats=cats, m=m, free=free, it=it), world=w, max_paths=300, cost=9))
    return out


def standard(h, th):
    m = len(th)
    mu = sum(th) / m
    th = [t - mu for t in th]
    sd = h.sqrt(sum((t - sum(th) / m) ** 2 for t in th) / (m - 1))
    return [t / sd for t in th], sd


def _choose(h, kind, m):
    """item searches start from abilities that differ; graded searches return increasing thresholds"""
    def choose(rec, k):
        if rec.kind != 'slsqp':         # large data: all but the first ability search end at fixed points
            return -4 + 0.5 * (len(h.w.records) * 5 % 17) if m > 6 and len(h.w.records) > 1 else None
        ab = []
        for r in reversed(h.w.records[:-1]):
            if r.kind == 'slsqp':
                break
            ab.insert(0, h.sc(r.result))
        if len(ab) == m and not rec.evals:
            h.assume(standard(h, ab)[1] > 0.1)
        if kind == 'pcm':
            return None
        v = [h.ctx.fresh('alpha', 0.25, 4.0), h.ctx.fresh('thr', -6.0, 0.0)]
        while len(v) < len(rec.lo):
            v.append(v[-1] + h.ctx.fresh('gap', 0.1, 1.5))
        return v
    return choose


def trimmed(X):
    """persons with observed responses that are not all at the dataset minimum or all at its maximum"""
    obs = [v for r in X for v in r if v != INVALID]
    lo, hi = min(obs), max(obs)
    keep = []
    for j, c in enumerate(zip(*X)):
        o = {v for v in c if v != INVALID}
        if o and not (o <= {lo} or o <= {hi}):
            keep.append(j)
    return keep, lo


def jml(h, g, kind, cats, m, free, it, base=1):
    n = len(cats)
    X = data(h, cats, m, free, base, True)
    kept, lo = trimmed(X)
    h.assume(len(kept) > 1)
    K = [[r[j] for j in kept] for r in X]
    for r in K:
        h.assume(any(v != INVALID for v in r))
    Y, C = recode(K, lo)
    h.w.choose = _choose(h, kind, len(kept))
    d = h.arr(X, int)
    opt = dict(max_iteration=it)
    before, keep = h.copy(d), dict(opt)
    out = (g.grm_jml if kind == 'grm' else g.pcm_jml)(d, opt)
    h.check('options unchanged', opt == keep)
    h.w.choose = None
    m = len(kept)
    model = grm if kind == 'grm' else pcm
    al = [1.0] * n
    be = [[-1 + 2 * k / (c - 2) for k in range(c - 1)] if c > 2 else [-1.0] for c in C]

    def nl(i, j, t, a, b):
        return -h.log(model(h, t, b, a)[Y[i][j]]) if Y[i][j] != INVALID else 0
    recs = list(h.w.records)
    h.check('whole sweeps', 0 < len(recs) <= it * (m + n) and len(recs) % (m + n) == 0)
    if len(recs) % (m + n):
        return
    sweeps = len(recs) // (m + n)
    for s in range(sweeps):
        old = [list(al), [list(b) for b in be]]
        rs = recs[s * (m + n):(s + 1) * (m + n)]
        th = []
        for j, r in enumerate(rs[:m]):
            h.check('ability range', (r.lo, r.hi) == (-6, 6))
            h.same_objective('ability', r, lambda e: sum(nl(i, j, h.sc(e.x), al[i], be[i]) for i in range(n)))
            th.append(h.sc(r.result))
        th, sd = standard(h, th)
        for i, r in enumerate(rs[m:]):
            h.check('parameter ranges', [float(q) for q in r.lo] == [0.25] + [-6] * (C[i] - 1) and [float(q) for q in r.hi] == [4] + [6] * (C[i] - 1))

            def nll(e):
                q = [h.sc(u) for u in h.lst(e.x)]
                return sum(nl(i, j, th[j], q[0], q[1:]) for j in range(m))
            h.same_objective('item', r, nll)
            if kind == 'grm' and r.ieqcons is not None and s == 0:
                q = [h.real('q%d_%d' % (i, k), -6, 6) for k in range(C[i])]
                got = [h.sc(u) for u in h.lst(r.ieqcons(h.arr(q)))]
                h.check('thresholds constrained to increase', h.truth(h.all(*[u >= 0 for u in got])) == h.truth(h.all(*[u <= v for u, v in zip(q[1:], q[2:])])))
            q = [h.sc(u) for u in h.lst(r.result)]
            al[i], be[i] = q[0], q[1:]
    if sweeps < it:
        if kind == 'grm':
            h.check('stops only when settled', h.all(*[h.abs(u - v) < 0.01 for p, q in zip(be, old[1]) for u, v in zip(p, q)]))
        else:
            h.check('stops only when settled', h.all(*[h.abs(u - v) < 0.01 for u, v in zip(al, old[0])]))
    D = h.lst(out['Difficulty'])
    h.check('one row per item', len(D) == n)
    for i in range(n):
        row = D[i] if isinstance(D[i], list) else [D[i]]
        h.check('threshold columns', len(row) == max(C) - 1)
        for u, v in zip(row, be[i]):
            h.eq('thresholds returned', u, v)
        h.check('unused thresholds', all(not hasattr(u, 'd') and u != u for u in row[C[i] - 1:]))
    for u, v in zip(h.lst(out['Discrimination']), al):
        h.eq('discrimination returned', u, v)
    h.unchanged('data', before, d)
    h.reach()
