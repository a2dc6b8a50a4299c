"""Recoding of polytomous responses, with and without trimming, for both offset modes.

All cells are arbitrary members of an alphabet with gaps (and the missing code); every combination
is a path whose result is compared with the definition."""
from .spec import INVALID

WIDE = (INVALID, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
NEG = (INVALID, -9, -6, -3, -2, -1, 0, 1, 2)

BOUNDS = 'datasets up to 2x3 / 3x2, alphabets {1,2,4,missing}, {0,1,3}, {-2,0,1,missing}; 26x5 int8 data with 2 free cells'


def configs(tier):
    out = []
    for trim in (True, False):
        for ref in (1.0, 0.0):
            nm = '%s-ref%d' % ('trim' if trim else 'keep', ref)

            def add(name, cost=1, **a):
                out.append(dict(name=name + '-' + nm, fn='cond', args=dict(trim=trim, ref=ref, **a), max_paths=6000, cost=cost))
            add('2x2', shape=(2, 2))
            add('1x3', shape=(1, 3))
            add('3x2b', shape=(3, 2), vals=(0, 1))
            add('neg2x2', shape=(2, 2), vals=(-2, 0, 1, INVALID))
            add('2x3', shape=(2, 3), vals=(1, 2, INVALID), cost=3)
            if tier == 'thorough':
                add('2x3full', shape=(2, 3), cost=5)
                add('3x2full', shape=(3, 2), vals=(0, 1, 3, INVALID), cost=5)
    syms = [('1x2', (1, 2), False, 1.0, WIDE), ('2x1', (2, 1), True, 0.0, WIDE), ('1x3', (1, 3), False, 1.0, (1, 2, 4)),
            ('1x2n', (1, 2), True, 1.0, NEG)]
    if tier == 'thorough':
        syms += [('1x3wide', (1, 3), False, 1.0, WIDE), ('2x2', (2, 2), True, 0.0, (1, 2, 4, INVALID)),
                 ('2x2wide', (2, 2), False, 1.0, WIDE), ('1x3n', (1, 3), True, 1.0, NEG), ('2x2n', (2, 2), True, 1.0, NEG)]
    for nm, sh, trim, ref, vals in syms:
        out.append(dict(name='sym' + nm, fn='symb', args=dict(shape=sh, trim=trim, ref=ref, vals=vals), cost=9, sym_unique=True))
    out.append(dict(name='default-args', fn='cond', args=dict(shape=(2, 2), trim=None, ref=None), max_paths=3000))
    out.append(dict(name='float', fn='cond', args=dict(shape=(2, 2), trim=True, ref=1.0, dt='float64'), max_paths=3000))
    out.append(dict(name='int8', fn='cond', args=dict(shape=(2, 2), vals=(0, 1, 3), trim=True, ref=1.0, dt='int8'), max_paths=3000))
    out.append(dict(name='int8-many', fn='many', args=dict(dt='int8')))
    out.append(dict(name='int16-many', fn='many', args=dict(dt='int16')))
    return out


def expected(h, X, trim, ref):
    n, m = len(X), len(X[0])
    seen = [[h.truth(v != INVALID) for v in r] for r in X]
    obs = [v for r, s in zip(X, seen) for v, k in zip(r, s) if k]
    lo = hi = obs[0]
    for v in obs[1:]:
        lo = v if h.truth(v < lo) else lo
        hi = v if h.truth(v > hi) else hi
    keep = []
    for j in range(m):
        o = [X[i][j] for i in range(n) if seen[i][j]]
        if trim and (not o or all(h.truth(v == lo) for v in o) or all(h.truth(v == hi) for v in o)):
            continue
        keep.append(j)
    out, cnts, off = [], [], 0
    for i in range(n):
        row = [X[i][j] for j in keep if seen[i][j]]
        cats = []                                  # distinct observed values, increasing
        for v in row:
            q = 0
            while q < len(cats) and h.truth(cats[q] < v):
                q += 1
            if q == len(cats) or not h.truth(cats[q] == v):
                cats.insert(q, v)

        def code(v):
            if len(cats) == 1:
                return 0 if h.truth(v == lo) else 1
            return [h.truth(c == v) for c in cats].index(True)
        out.append([code(X[i][j]) + off if seen[i][j] else INVALID for j in keep])
        cnts.append(max(len(cats), 2))
        off += cnts[-1] if ref else 0
    mask = [[seen[i][j] for j in keep] for i in range(n)]
    return keep, out, cnts, mask


def symb(h, g, shape, trim, ref, vals):
    n, m = shape
    x = h.cats('x', shape, vals)
    h.assume(h.any(*[v != INVALID for r in h.lst(x) for v in r]))
    compare(h, g, x, trim, ref)


def cond(h, g, shape, trim, ref, vals=(1, 2, 4, INVALID), dt='int64'):
    n, m = shape
    X = [[h.choose('x%d_%d' % (i, j), vals) for j in range(m)] for i in range(n)]
    h.assume(any(v != INVALID for r in X for v in r))
    compare(h, g, h.arr(X, dt), trim, ref)


def compare(h, g, x, trim, ref):
    X = h.lst(x)
    before = h.copy(x)
    if trim is None:
        out, cnt, mask = g.condition_polytomous_response(x)
        trim, ref = True, 1.0
    elif ref == 1.0:
        out, cnt, mask = g.condition_polytomous_response(x, trim_ends=trim)
    else:
        out, cnt, mask = g.condition_polytomous_response(x, trim_ends=trim, _reference=ref)
    keep, O, C, M = expected(h, X, trim, ref)
    h.unchanged('input', before, x)
    h.check('persons kept', h.shape(out) == (len(X), len(keep)) == h.shape(mask))
    h.eq('category counts', h.lst(cnt), C)
    if h.shape(out) == (len(X), len(keep)):
        h.eq('codes', h.lst(out), O)
        h.eq('observed', h.lst(mask), M)
    h.reach()


def many(h, g, dt):
    a = h.cat('a', (1, 2, 5))
    b = h.cat('b', (1, 3))
    X = [[1 + (i + j) % 5 for j in range(5)] for i in range(27)]
    X[3][1] = a
    X[26][0] = b
    compare(h, g, h.arr(X, dt), False, 1.0)
