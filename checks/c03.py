"""Trimming of constant response patterns: every pattern set over the alphabet, symbolic counts.

Which patterns are dropped is decided per path (cells are forked), the counts stay symbolic, so
alignment of counts with patterns is an identity over all count vectors."""
from .spec import INVALID

BOUNDS = 'pattern sets of 3 items x 3 patterns (2x3, 3x2, 2x4) with cells in {0,1,missing} (and signed, polytomous, widely spaced codes); 3x120 and 70x4 with 2 free cells; counts symbolic'


def configs(tier):
    out = [dict(name='3x2', fn='trim', args=dict(shape=(3, 2)), max_paths=2000),
           dict(name='2x2', fn='trim', args=dict(shape=(2, 2)), max_paths=2000),
           dict(name='4x1', fn='trim', args=dict(shape=(4, 1)), max_paths=2000),
           dict(name='1x2', fn='trim', args=dict(shape=(1, 2)), max_paths=2000),
           dict(name='2x3-nomiss', fn='trim', args=dict(shape=(2, 3), vals=(0, 1)), max_paths=2000),
           dict(name='3x1-poly', fn='trim', args=dict(shape=(3, 1), vals=(1, 2, 3, INVALID)), max_paths=2000),
           dict(name='2x2-signed', fn='trim', args=dict(shape=(2, 2), vals=(-1, 1, 2, INVALID)), max_paths=2000),
           dict(name='3x1-negative', fn='trim', args=dict(shape=(3, 1), vals=(-3, -1, 0, INVALID)), max_paths=2000),
           dict(name='2x2-wide', fn='trim', args=dict(shape=(2, 2), vals=(0, 7, 400, INVALID)), max_paths=2000),
           dict(name='float', fn='trim', args=dict(shape=(2, 2), dt='float64'), max_paths=2000)]
    for dt in ('int64', 'int16', 'float64'):
        out.append(dict(name='many-' + dt, fn='many', args=dict(dt=dt), max_paths=40))
    out.append(dict(name='many-items', fn='many', args=dict(dt='int64', n=150, m=7), max_paths=40))
    if tier == 'thorough':
        out += [dict(name='2x3', fn='trim', args=dict(shape=(2, 3)), max_paths=5000),
                dict(name='4x2', fn='trim', args=dict(shape=(4, 2)), max_paths=8000)]
    return out


def many(h, g, dt, n=3, m=120):
    """many patterns (or items)"""
    vals = (0, 1) if dt == 'int16' else (0, 1, INVALID)
    X = [[vals[(i * i * j + j * (i > 1) + j // 3) % len(vals)] for j in range(m)] for i in range(n)]
    if n > 9:                           # a single odd answer
        for i in range(n):
            X[i][1], X[i][2], X[i][4] = int(i == 3), int(i != n - 2), INVALID if i % 2 else int(i == 6)
    X[n - 1][0] = h.choose('x', vals)
    X[0][m - 1] = h.choose('y', vals)
    C = [h.real('c%d' % j, 0, 50) if j % 40 == 0 else float(j % 13 + 1) for j in range(m)]
    x, c = h.arr(X, dt), h.arr(C)
    s, k = g.trim_response_set_and_counts(x, c)
    keep = [j for j in range(m) if len(set(X[i][j] for i in range(n)) - {INVALID}) > 1]
    h.check('patterns kept', h.shape(s) == (n, len(keep)))
    h.check('counts kept', h.shape(k) == (len(keep),))
    if h.shape(s) == (n, len(keep)) and h.shape(k) == (len(keep),):
        S, K = h.lst(s), h.lst(k)
        for q, j in enumerate(keep):
            h.eq('pattern', [S[i][q] for i in range(n)], [X[i][j] for i in range(n)])
            h.eq('count', K[q], C[j])
    h.reach()


def trim(h, g, shape, vals=(0, 1, INVALID), dt='int64'):
    n, m = shape
    # the missing pattern is forked, observed values stay symbolic
    miss = INVALID in vals
    obs = tuple(v for v in vals if v != INVALID)
    x = h.cats('x', shape, lambda ix: (INVALID,) if miss and h.choose('m%d_%d' % ix, (False, True)) else obs, dt)
    X = h.lst(x)
    c = h.reals('c', m, 0, 50)
    bx, bc = h.copy(x), h.copy(c)
    s, k = g.trim_response_set_and_counts(x, c)
    keep = []
    for j in range(m):
        col = [X[i][j] for i in range(n)]
        mixed = h.any(*[h.all(a != INVALID, b != INVALID, a != b) for k, a in enumerate(col) for b in col[:k]])
        if h.truth(mixed):
            keep.append(j)
    h.check('patterns kept', h.shape(s) == (n, len(keep)))
    h.check('counts kept', h.shape(k) == (len(keep),))
    if h.shape(s) == (n, len(keep)) and h.shape(k) == (len(keep),):
        S, K, C = h.lst(s), h.lst(k), h.lst(c)
        for q, j in enumerate(keep):
            for i in range(n):
                h.eq('pattern', S[i][q], X[i][j])
            h.eq('count', K[q], C[j])
    h.unchanged('patterns input', bx, x)
    h.unchanged('counts input', bc, c)
    h.reach()
