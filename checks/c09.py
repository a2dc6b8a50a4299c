"""Graded response likelihoods (one and several dimensions) against the difference of adjacent
cumulative logistic curves, for all real thresholds, discriminations, abilities and every response."""
from .spec import grm, grm_slope

BOUNDS = '1-2 items of 2-4 categories, 2-3 responses, 1-2 abilities, 2-3 dimensions (fixed responses: 130 persons, 12 categories, 40 items); thresholds in [-6,6], discriminations in [0.1,4] ([-3,3] for several dimensions), abilities in [-6,6]'


def configs(tier):
    out = []
    for cats in ((2,), (3,), (4,), (2, 3), (3, 2)):
        nm = 'x'.join(map(str, cats))
        out.append(dict(name='grm-' + nm, fn='uni', args=dict(cats=cats)))
        out.append(dict(name='md-' + nm, fn='multi', args=dict(cats=cats, nf=2)))
    out.append(dict(name='md3-3', fn='multi', args=dict(cats=(3,), nf=3)))
    out.append(dict(name='grm-order-2', fn='order', args=dict(nc=2)))
    out.append(dict(name='grm-order-3', fn='order', args=dict(nc=3)))
    out.append(dict(name='grm-order-4', fn='order', args=dict(nc=4)))
    out.append(dict(name='md-order-3', fn='order_md', args=dict(nc=3)))
    out.append(dict(name='grm-many', fn='many', args=dict(cats=(12, 3, 2), m=130)))
    out.append(dict(name='md-many', fn='many', args=dict(cats=(12, 3, 2), m=130, nf=2)))
    out.append(dict(name='grm-many-items', fn='many', args=dict(cats=(2, 3) * 60, m=4)))
    out.append(dict(name='md-many-items', fn='many', args=dict(cats=(2, 3) * 60, m=4, nf=2)))
    if tier == 'thorough':
        for cats in ((5,), (4, 3), (2, 2, 3)):
            nm = 'x'.join(map(str, cats))
            out.append(dict(name='grm-' + nm, fn='uni', args=dict(cats=cats, m=4)))
            out.append(dict(name='md-' + nm, fn='multi', args=dict(cats=cats, nf=3)))
    return out


def _offsets(cats):
    o = [0]
    for c in cats:
        o.append(o[-1] + c)
    return o


def _flat(h, B, first, last):
    b, r = [], []
    for bs in B:
        b += [first] + bs
        r += bs + [last]
    return h.arr(b), h.arr(r)


def uni(h, g, cats, m=2):
    f = h.private('girth.unidimensional.polytomous.partial_integrals_poly', '_graded_partial_integral')
    th = h.reals('theta', 2, -12, 12)
    B = [[h.real('b%d_%d' % (i, k), -12, 12) for k in range(c - 1)] for i, c in enumerate(cats)]
    A = [h.real('a%d' % i, 0.1, 10) for i in range(len(cats))]
    betas, roll = _flat(h, B, -10000.0, 10000.0)
    disc = h.arr([A[i] for i, c in enumerate(cats) for _ in range(c)])
    off = _offsets(cats)
    before = [h.copy(v) for v in (th, betas, roll, disc)]
    T = h.lst(th)
    for i, c in enumerate(cats):
        X = [h.choose('x%d_%d' % (i, j), range(c)) for j in range(m)]
        M = [h.choose('m%d_%d' % (i, j), (False, True)) for j in range(m)]
        resp = h.arr([0 if mm else x + off[i] for x, mm in zip(X, M)], int)
        O = f(th, betas, roll, disc, resp, h.arr(M, bool))
        h.check('shape', h.shape(O) == (m, 2))
        O = h.lst(O)
        for j in range(m):
            for k in range(2):
                h.eq('item %d' % i, O[j][k], 1 if M[j] else grm(h, T[k], B[i], A[i])[X[j]])
    for a, b in zip(before, (th, betas, roll, disc)):
        h.unchanged('inputs', a, b)
    h.reach()


def multi(h, g, cats, nf, m=2):
    f = h.private('girth.multidimensional.partial_integral_md', '_graded_partial_integral_md')
    th = h.reals('theta', (nf, 2), -10, 10)
    D = [[h.real('d%d_%d' % (i, k), -12, 12) for k in range(c - 1)] for i, c in enumerate(cats)]
    A = [[h.real('a%d_%d' % (i, q), -6, 6) for q in range(nf)] for i in range(len(cats))]
    betas, roll = _flat(h, D, 10000.0, -10000.0)
    disc = h.arr([A[i] for i, c in enumerate(cats) for _ in range(c)])
    off = _offsets(cats)
    T = h.lst(th)
    for i, c in enumerate(cats):
        X = [h.choose('x%d_%d' % (i, j), range(c)) for j in range(m)]
        M = [h.choose('m%d_%d' % (i, j), (False, True)) for j in range(m)]
        resp = h.arr([0 if mm else x + off[i] for x, mm in zip(X, M)], int)
        O = h.lst(f(th, betas, roll, disc, resp, h.arr(M, bool)))
        for j in range(m):
            for k in range(2):
                kern = sum(A[i][q] * T[q][k] for q in range(nf))
                h.eq('item %d' % i, O[j][k], 1 if M[j] else grm_slope(h, kern, D[i])[X[j]])
    h.reach()


def many(h, g, cats, m, nf=0):
    """many categories, persons and items (fixed responses and, but for the ends, thresholds)"""
    if nf:
        f = h.private('girth.multidimensional.partial_integral_md', '_graded_partial_integral_md')
    else:
        f = h.private('girth.unidimensional.polytomous.partial_integrals_poly', '_graded_partial_integral')
    th = h.reals('theta', (nf, 1) if nf else 1, -10, 10)
    s = -1 if nf else 1
    B = [[h.real('b%d_%d' % (i, k), -12, 12) if k in (0, c - 2) else s * (k - 5) * 0.5 for k in range(c - 1)] for i, c in enumerate(cats)]
    A = [[h.real('a%d_%d' % (i, q), -3, 3) for q in range(nf)] if nf else h.real('a%d' % i, 0.1, 4) for i in range(len(cats))]
    betas, roll = _flat(h, B, -s * 10000.0, s * 10000.0)
    disc = h.arr([A[i] for i, c in enumerate(cats) for _ in range(c)])
    off = _offsets(cats)
    T = h.lst(th)
    for i, c in enumerate(cats):
        X = [(j * j + j // 3 + i) % c for j in range(m)]
        M = [j % 13 == 5 for j in range(m)]
        O = h.lst(f(th, betas, roll, disc, h.arr([0 if q else x + off[i] for x, q in zip(X, M)], int), h.arr(M, bool)))
        for j in range(m):
            want = grm_slope(h, sum(A[i][q] * T[q][0] for q in range(nf)), B[i]) if nf else grm(h, T[0], B[i], A[i])
            h.eq('item %d' % i, O[j][0], 1 if M[j] else want[X[j]])
    h.reach()


def order(h, g, nc):
    """ordered thresholds: categories are non-negative and add to one"""
    f = h.private('girth.unidimensional.polytomous.partial_integrals_poly', '_graded_partial_integral')
    th = h.reals('theta', 1, -12, 12)
    b = [h.real('b%d' % k, -12, 12) for k in range(nc - 1)]
    for u, v in zip(b, b[1:]):
        h.assume(u <= v)
    a = h.real('a', 0.1, 10)
    betas, roll = _flat(h, [b], -10000.0, 10000.0)
    O = [r[0] for r in h.lst(f(th, betas, roll, h.arr([a] * nc), h.arr(list(range(nc)), int), h.arr([False] * nc, bool)))]
    h.eq('adds to one', sum(O), 1.0)
    for v in O:
        h.check('non negative', v >= -1e-12)
    h.reach()


def order_md(h, g, nc):
    f = h.private('girth.multidimensional.partial_integral_md', '_graded_partial_integral_md')
    th = h.reals('theta', (2, 1), -10, 10)
    b = [h.real('b%d' % k, -12, 12) for k in range(nc - 1)]
    for u, v in zip(b, b[1:]):
        h.assume(u >= v)
    a = [h.real('a%d' % k, -6, 6) for k in range(2)]
    betas, roll = _flat(h, [b], 10000.0, -10000.0)
    O = [r[0] for r in h.lst(f(th, betas, roll, h.arr([a] * nc), h.arr(list(range(nc)), int), h.arr([False] * nc, bool)))]
    h.eq('adds to one', sum(O), 1.0)
    for v in O:
        h.check('non negative', v >= -1e-12)
    h.reach()
