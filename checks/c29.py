"""Classical test statistics: the cells hold arbitrary numbers, missing cells are enumerated; every reported
statistic is compared with its definition over the observed cells.  The polyserial correlation is an
uninterpreted function of the two vectors it is given (its own correctness is C31)."""
from .spec import INVALID

BOUNDS = '3-4 items x 3-5 persons; cells arbitrary in [1, 5] (arbitrary reals), any one cell (for 3x4: also cell (0,0) or (1,2) with any later cell) missing; integer datasets with cells in {1..5} or missing; also 12-40 items or 150 persons with one free cell'
ASSUMPTIONS = ['every item keeps at least two observed cells of different value and every person at least one observed cell among any n-1 items',
               'polyserial_correlation is replaced by an uninterpreted function of its two arguments (checked in C31)']


def configs(tier):
    out = []
    for n, m in ((3, 3), (3, 4), (4, 3)):
        out.append(dict(name='complete-%dx%d' % (n, m), fn='ctt', args=dict(n=n, m=m, miss=0), overrides='POLY'))
    for dt in ('float64', 'int64'):
        out.append(dict(name='missing-' + dt, fn='ctt', args=dict(n=3, m=4, miss=1, dt=dt), overrides='POLY', cost=8))
    out.append(dict(name='missing-two', fn='ctt', args=dict(n=3, m=4, miss=2, first=(0, 6)), overrides='POLY', cost=9))
    out.append(dict(name='missing-5', fn='ctt', args=dict(n=4, m=4, miss=1), overrides='POLY', cost=7))
    out.append(dict(name='many-persons', fn='ctt', args=dict(n=3, m=150, miss=0), overrides='POLY', cost=6))
    out.append(dict(name='many-items', fn='ctt', args=dict(n=12, m=6, miss=0), overrides='POLY', cost=6))
    out.append(dict(name='alpha-many', fn='alpha', args=dict(n=4, m=150, miss=0)))
    out.append(dict(name='alpha-many-items', fn='alpha', args=dict(n=40, m=5, miss=0)))
    out.append(dict(name='integrated', fn='integrated'))
    for n, m in ((2, 2), (2, 3), (3, 3), (4, 3)):
        out.append(dict(name='alpha-%dx%d' % (n, m), fn='alpha', args=dict(n=n, m=m, miss=0)))
    out.append(dict(name='alpha-missing', fn='alpha', args=dict(n=3, m=3, miss=1)))
    out.append(dict(name='alpha-missing-2', fn='alpha', args=dict(n=3, m=4, miss=2)))
    out.append(dict(name='alpha-int', fn='alpha', args=dict(n=2, m=3, miss=0, dt='int64')))
    if tier == 'thorough':
        out.append(dict(name='missing-two-5', fn='ctt', args=dict(n=4, m=5, miss=2), overrides='POLY'))
        out.append(dict(name='complete-5x6', fn='ctt', args=dict(n=5, m=6, miss=0), overrides='POLY'))
    return out


_H = [None, 0]


def _poly(orig):
    def f(c, o, *a, **k):
        h = _H[0]
        _H[1] += 1
        return h.sc(h.uf('poly')(*(h.lst(c) + h.lst(o))))
    return f


POLY = {'girth.utilities.ctt_statistics': {'polyserial_correlation': _poly}}


def _data(h, n, m, miss, dt='float64', first=None):
    if dt == 'int64':
        V = [[h.ctx.int('x%d_%d' % (i, j), 1, 9) for j in range(m)] for i in range(n)]
    else:
        V = [[(i * 3 + j * j + j // 4) % 5 + 1 if m > 20 and (i, j) != (1, 2) or n > 8 and (i, j) != (1, 2) else h.real('x%d_%d' % (i, j), 1, 9) for j in range(m)] for i in range(n)]
    M = set()
    cells = [(i, j) for i in range(n) for j in range(m)]
    last = -1
    for k in range(miss):
        p = h.choose('p%d' % k, (range(-1, len(cells)) if k or first is None else first))
        h.assume(p > last or (p == -1 and last == -1))
        if p >= 0:
            M.add(cells[p])
            last = p
    X = [[INVALID if (i, j) in M else V[i][j] for j in range(m)] for i in range(n)]
    # no constant item: two observed cells of every item differ
    for i in range(n):
        o = [v for v in X[i] if hasattr(v, 'd') or v != INVALID]
        if n > 8 or m > 20:
            continue
        if len(o) < 2:
            h.assume(False)
        h.assume(h.any(*[h.abs(o[0] - v) > 0.5 for v in o[1:]]))
    return X, M


def _obs(X, M, i):
    return [X[i][j] for j in range(len(X[i])) if (i, j) not in M]


def _var(xs):
    mu = sum(xs) / len(xs)
    return sum((x - mu) * (x - mu) for x in xs) / (len(xs) - 1)


def _totals(h, X, M, items):
    """person means of the observed cells among the items"""
    out = []
    for j in range(len(X[0])):
        o = [X[i][j] for i in items if (i, j) not in M]
        if not o:
            h.assume(False)
        out.append(sum(o) / len(o))
    return out


def _alpha(h, X, M, items):
    k = len(items)
    t = _totals(h, X, M, items)
    v = _var([k * x for x in t])
    h.assume(v > 0.05)
    return k / (k - 1) * (1 - sum(_var(_obs(X, M, i)) for i in items) / v)


def alpha(h, g, n, m, miss, dt='float64'):
    X, M = _data(h, n, m, miss, dt)
    want = _alpha(h, X, M, list(range(n)))
    d = h.arr(X, dt)
    b = h.copy(d)
    h.eq('alpha', h.sc(g.cronbach_alpha(d)), want)
    h.unchanged('data', b, d)
    h.reach()


def ctt(h, g, n, m, miss, dt='float64', first=None):
    X, M = _data(h, n, m, miss, dt, first)
    d = h.arr(X, dt)
    b = h.copy(d)
    _H[0], _H[1] = h, 0
    want = []
    for i in range(n):
        rest = [k for k in range(n) if k != i]
        t = _totals(h, X, M, rest)
        ps = [j for j in range(m) if (i, j) not in M]
        x, y = [t[j] for j in ps], [X[i][j] for j in ps]
        h.assume(_var(x) > 0.05)
        want.append((x, y, _alpha(h, X, M, rest)))
    out = g.classical_test_statistics(d)
    if not _H[1]:
        h.private('girth.utilities.ctt_statistics', 'polyserial correlation not called')
    get = lambda k: h.lst(out[k])
    for i in range(n):
        o = _obs(X, M, i)
        x, y, al = want[i]
        h.eq('count', get('Item Counts')[i], len(o))
        h.eq('mean', get('Mean')[i], sum(o) / len(o))
        h.eq('std', get('Std')[i], h.sqrt(_var(o)))
        mx, my = sum(x) / len(x), sum(y) / len(y)
        cov = sum((u - mx) * (v - my) for u, v in zip(x, y)) / (len(x) - 1)
        h.eq('item rest correlation', get('Item-Score Correlation')[i], cov / (h.sqrt(_var(x)) * h.sqrt(_var(y))))
        h.eq('alpha if deleted', get('Cronbach Alpha')[i], al)
        h.eq('polyserial', get('Polyserial Correlation')[i], h.sc(h.uf('poly')(*(x + y))))
    h.unchanged('data', b, d)
    h.reach()


def integrated(h, g):
    """with the real polyserial correlation: its result is stored under its item"""
    X = [[1, 2, 1, 2, 3], [2, 2, 1, 1, INVALID], [1, 3, 3, 2, 1]]
    X[0][2] = h.choose('a', (1, 3, INVALID))
    X[2][0] = h.choose('b', (1, 2, INVALID))
    out = g.classical_test_statistics(h.arr(X, int))
    P = h.lst(out['Polyserial Correlation'])
    h.check('one search per item', len(h.w.records) == 3)
    for i in range(3):
        h.eq('stored under its item', P[i], h.sc(h.rec(i).result))
    h.reach()
