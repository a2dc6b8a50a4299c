"""Polychoric correlation.

Contingency tables: cell values are symbolic and every table entry is compared with the number of matching
pairs.  Correlation: the likelihood handed to the (stubbed) search is evaluated at two arbitrary
correlations and compared with the multinomial likelihood under a bivariate normal (the rectangle
probability is an uninterpreted function of its limits and the correlation), for enumerated data and for
tables of arbitrary positive counts; the worker pool and the shared memory are in-process stand-ins."""
from .spec import INVALID

BOUNDS = 'tables: 2-4 persons, values arbitrary in [-3, 7] or missing, category ranges of 1-5 values (negative and zero starts); likelihood: 2-4 items, 4-7 persons, 2-4 categories, 1-4 processes; arbitrary counts in [1, 40] for 2x2, 2x3 and 3x3 tables; also 300-400 persons, 7 items, 15 categories'
ASSUMPTIONS = ['the bounded search returns an arbitrary point of its interval; that it is the optimum is its contract',
               'worker processes are run in this process on their own copies of the arguments; shared memory is one buffer visible under its name']


def configs(tier):
    out = []
    for k, (s, e) in enumerate(((1, 5), (0, 2), (-2, 1), (3, 3), (1, 2), (-3, -1))):
        out.append(dict(name='table-%d' % k, fn='table', args=dict(m=3, s=s, e=e), merge=True))
    out.append(dict(name='table-default', fn='table', args=dict(m=2, s=None, e=None), merge=True))
    out.append(dict(name='table-float', fn='table', args=dict(m=3, s=1, e=3, dt='float64'), merge=True))
    out.append(dict(name='table-many', fn='table', args=dict(m=400, s=0, e=4, fixed=True), merge=True))
    out.append(dict(name='table-wide', fn='table', args=dict(m=2, s=-3, e=11), merge=True))
    out.append(dict(name='pair-many', fn='data', args=dict(X=[[(j * j + j // 3) % 2 + 1 for j in range(300)], [None] + [(j // 2) % 2 + 1 for j in range(299)]], s=1, e=2, np_=2)))
    out.append(dict(name='seven-3', fn='data', args=dict(X=[[1, 2, 1, 2, 2, 1, (i + 1) % 2 + 1] if i % 2 else [1, 1, 2, 2, 1 + (i > 3), 1, 2 - (i > 1)] for i in range(7)], s=1, e=2, np_=3)))
    for sh in ((2, 2), (2, 3), (3, 2), (3, 3)):
        out.append(dict(name='drop-%dx%d' % sh, fn='drop', args=dict(sh=sh)))
    for np_ in (1, 2):
        out.append(dict(name='pair-%d' % np_, fn='data', args=dict(X=((1, 2, 1, 2, None), (1, 1, 2, 2, None)), s=1, e=2, np_=np_)))
        out.append(dict(name='pair-3x2-%d' % np_, fn='data', args=dict(X=((1, 2, 3, 2, None), (1, 1, 2, 2, 1)), s=1, e=3, np_=np_)))
    out.append(dict(name='pair-neg', fn='data', args=dict(X=((-1, 1, -1, 1, 0), (-1, -1, 0, 0, None)), s=-1, e=1, np_=1)))
    out.append(dict(name='pair-default', fn='data', args=dict(X=((1, 5, 1, 5, 2), (1, 1, 3, 3, None)), s=1, e=5, np_=None)))
    three = ((1, 2, 1, 2, 2), (1, 1, 2, 2, 1), (2, 1, 1, 2, None))
    four = ((1, 2, 1, 2, 2), (1, 1, 2, 2, 1), (2, 1, 1, 2, 2), (2, 2, 1, 1, None))
    for np_ in (1, 2, 3, 4):
        out.append(dict(name='three-%d' % np_, fn='data', args=dict(X=three, s=1, e=2, np_=np_)))
    for np_ in (1, 2, 4):
        out.append(dict(name='four-%d' % np_, fn='data', args=dict(X=four, s=1, e=2, np_=np_), cost=5))
    out.append(dict(name='serial', fn='data', args=dict(X=three, s=1, e=2, np_=0)))
    out.append(dict(name='float-data', fn='data', args=dict(X=three, s=1, e=2, np_=2, dt='float64')))
    out.append(dict(name='int8-data', fn='data', args=dict(X=((1, 2, 1, 2, 2), (1, 1, 2, 2, 1)), s=1, e=2, np_=2, dt='int8')))
    out.append(dict(name='one-item', fn='single'))
    for sh in ((2, 2), (2, 3), (3, 2), (3, 3)):
        out.append(dict(name='counts-%dx%d' % sh, fn='counts', args=dict(sh=sh), overrides='TABLE'))
    if tier == 'thorough':
        out.append(dict(name='table-4', fn='table', args=dict(m=5, s=1, e=4), merge=True))
        out.append(dict(name='pair-any', fn='data', args=dict(X=((1, 2, 1, 2, None, None), (1, 1, 2, 2, None, None)), s=1, e=2, np_=2)))
    return out


def table(h, g, m, s, e, dt='int64', fixed=False):
    vals = tuple(range(-3, 8)) + (INVALID,)
    a, b = h.cats('a', 1 if fixed else m, vals, dt), h.cats('b', 1 if fixed else m, vals, dt)
    if fixed:                           # many persons, all but one with fixed values
        a, b = [h.arr([h.lst(v)[0]] + [vals[(j * j * q + j // q) % 5 + 3] for j in range(1, m)], dt) for v, q in ((a, 1), (b, 2))]
    before = [h.copy(a), h.copy(b)]
    out = g.contingency_table(a, b) if s is None else g.contingency_table(a, b, s, e)
    s, e = (1, 5) if s is None else (s, e)
    n = e - s + 1
    h.check('size', h.shape(out) == (n, n))
    A, B, O = h.lst(a), h.lst(b), h.lst(out)
    for i in range(n):
        for j in range(n):
            h.eq('count', O[i][j], sum(h.ite(h.all(A[k] == s + i, B[k] == s + j), 1, 0) for k in range(m)))
    h.unchanged('first', before[0], a)
    h.unchanged('second', before[1], b)
    h.reach()


def drop(h, g, sh):
    """empty rows and columns are removed, the rest stays in order"""
    T = [[h.choose('t%d_%d' % (i, j), (0, 1)) * h.real('c%d_%d' % (i, j), 1, 9) for j in range(sh[1])] for i in range(sh[0])]
    t = h.arr(T)
    before = h.copy(t)
    rows = [i for i in range(sh[0]) if any(_nz(v) for v in T[i])]
    cols = [j for j in range(sh[1]) if any(_nz(T[i][j]) for i in range(sh[0]))]
    out = g.validate_contingency_table(t)
    h.check('size', h.shape(out) == (len(rows), len(cols)))
    h.eq('kept', h.lst(out), [[T[i][j] for j in cols] for i in rows])
    h.unchanged('table', before, t)
    h.reach()


def _nz(v):
    return hasattr(v, 'd') or v != 0


def _bvn(h, g, T):
    """log likelihood of a table without empty margins, as a function of the correlation"""
    R, C = len(T), len(T[0])
    tot = sum(sum(r) for r in T)
    q = lambda p: h.sc(g.sp.special.ndtri(p))
    rows, cols = [-23.0], [-23.0]
    acc = 0
    for i in range(R - 1):
        acc = acc + sum(T[i])
        rows.append(q(acc / tot))
    acc = 0
    for j in range(C - 1):
        acc = acc + sum(T[i][j] for i in range(R))
        cols.append(q(acc / tot))
    rows.append(23.0)
    cols.append(23.0)
    mv = g.sp.stats.mvn.mvnun

    def f(e):
        r = h.sc(e.x)
        s = 0
        for i in range(R):
            for j in range(C):
                p = mv(h.arr([rows[i], cols[j]]), h.arr([rows[i + 1], cols[j + 1]]), h.arr([0, 0]), h.arr([[1, r], [r, 1]]))[0]
                if not hasattr(T[i][j], 'd') and T[i][j] == 0:
                    continue
                s = s - T[i][j] * h.log(h.max(1e-46, h.sc(p)))
        return s
    return f


def _pair_table(a, b, s, e):
    T = [[sum(1 for u, v in zip(a, b) if u == i and v == j) for j in range(s, e + 1)] for i in range(s, e + 1)]
    keep = [j for j in range(len(T)) if any(r[j] for r in T)]
    return [[r[j] for j in keep] for r in T if any(r)]


def data(h, g, X, s, e, np_, dt='int64'):
    vals = tuple(range(s, e + 1)) + (() if dt == 'int8' else (INVALID,))
    D = [[h.choose('x%d_%d' % (i, j), vals) if v is None else v for j, v in enumerate(row)] for i, row in enumerate(X)]
    n = len(D)
    d = h.arr(D, dt)
    before = h.copy(d)
    if np_ == 0:
        out = g.polychoric_correlation_serial(d, s, e)
    elif np_ is None:
        out = g.polychoric_correlation(d)
    else:
        out = g.polychoric_correlation(d, s, e, num_processors=np_)
    h.check('square', h.shape(out) == (n, n))
    O = h.lst(out)
    recs = list(h.w.records)
    h.check('one search per pair', len(recs) == n * (n - 1) // 2)
    for i in range(n):
        h.eq('unit diagonal', O[i][i], 1)
        for j in range(i):
            h.eq('symmetric', O[i][j], O[j][i])
            r = [r for r in recs if _same(h, r.result, O[i][j])]
            h.check('correlation is the result of a search', len(r) == 1)
            if not r:
                continue
            r = r[0]
            h.check('search range', h.sc(r.lo) >= -1 and h.sc(r.lo) <= -0.99 and h.sc(r.hi) <= 1 and h.sc(r.hi) >= 0.99)
            h.same_objective('likelihood', r, _bvn(h, g, _pair_table(D[i], D[j], s, e)))
    h.check('distinct searches', all(not _same(h, O[i][j], O[p][q]) for i in range(n) for j in range(i)
                                     for p in range(n) for q in range(p) if (p, q) != (i, j)))
    h.unchanged('data', before, d)
    h.reach()


def _same(h, a, b):
    a, b = h.sc(a), h.sc(b)
    if hasattr(a, 'd') or hasattr(b, 'd'):
        return hasattr(a, 'd') and hasattr(b, 'd') and a.key == b.key
    return a == b


def single(h, g):
    for np_ in (1, 2, 3):
        out = g.polychoric_correlation(h.arr([[1, 2, 1, 2]], int), 1, 2, np_)
        h.eq('one item', h.lst(out), [[1.0]])
    h.reach()


_T = [None, 0]


def _tab(orig):
    def f(*a, **k):
        _T[1] += 1
        return _T[0].copy()
    return f


TABLE = {'girth.common.polychoric': {'contingency_table': _tab}}


def counts(h, g, sh):
    """the pair likelihood for a table of arbitrary positive counts"""
    fn = h.private('girth.common.polychoric', '_polychoric_correlation_value')
    T = [[h.real('n%d_%d' % (i, j), 1, 40) for j in range(sh[1])] for i in range(sh[0])]
    _T[0], _T[1] = h.arr(T), 0
    out = fn(h.arr([1, 1], int), h.arr([1, 1], int), 1, 3)
    if not _T[1]:
        h.private('girth.common.polychoric', 'pair table not built by contingency_table')
    r = h.rec(0)
    h.eq('search result', h.sc(out), h.sc(r.result))
    h.same_objective('likelihood', r, _bvn(h, g, T))
    h.reach()
