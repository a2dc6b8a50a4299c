"""Partial credit and graded unfolding likelihoods against their models, for all real parameters,
abilities and every response; items may have fewer categories than the widest item (NaN padding)."""
from .spec import pcm, ggum

BOUNDS = 'one item of 2-4 categories, alone or padded to the width of an item with one or two more categories; 2-3 responses, 2 abilities (fixed responses: 80 persons, 9 categories); parameters in [-6,6], discrimination in [0.1,4]'


def configs(tier):
    out = []
    for nc in (2, 3, 4):
        for pad in (0, 1, 2):
            if nc + pad > 5:
                continue
            out.append(dict(name='pcm-%d+%d' % (nc, pad), fn='credit', args=dict(nc=nc, pad=pad)))
            out.append(dict(name='gum-%d+%d' % (nc, pad), fn='unfold', exp_den=2, args=dict(nc=nc, pad=pad)))
    for nc, pad in ((9, 0), (7, 3)):
        out.append(dict(name='pcm-many-%d' % nc, fn='many', args=dict(nc=nc, pad=pad, m=80)))
    out.append(dict(name='gum-many', fn='many', exp_den=2, args=dict(nc=6, pad=2, m=80, gum=True)))
    if tier == 'thorough':
        for nc, pad in ((5, 0), (5, 1), (6, 0)):
            out.append(dict(name='pcm-%d+%d' % (nc, pad), fn='credit', args=dict(nc=nc, pad=pad)))
            out.append(dict(name='gum-%d+%d' % (nc, pad), fn='unfold', exp_den=2, args=dict(nc=nc, pad=pad)))
    return out


def _resp(h, nc, m):
    X = [h.choose('x%d' % j, range(nc)) for j in range(m)]
    M = [h.choose('m%d' % j, (False, True)) for j in range(m)]
    return X, M, h.arr([0 if mm else x for x, mm in zip(X, M)], int), h.arr(M, bool)


def credit(h, g, nc, pad, m=2):
    f = h.private('girth.unidimensional.polytomous.partial_integrals_poly', '_credit_partial_integral')
    th = h.reals('theta', 2, -10, 10)
    b = [h.real('b%d' % k, -10, 10) for k in range(nc - 1)]
    a = h.real('a', 0.01, 5)
    X, M, resp, mask = _resp(h, nc, m)
    betas = h.arr([0.0] + b + [float('nan')] * pad)
    before = [h.copy(v) for v in (th, betas)]
    O = f(th, betas, a, resp, mask)
    h.check('shape', h.shape(O) == (m, 2))
    O, T = h.lst(O), h.lst(th)
    for j in range(m):
        for k in range(2):
            h.eq('likelihood', O[j][k], 1 if M[j] else pcm(h, T[k], b, a)[X[j]])
    h.unchanged('theta', before[0], th)
    h.unchanged('steps', before[1], betas)
    allc = h.lst(f(th, betas, a, h.arr(list(range(nc)), int), h.arr([False] * nc, bool)))
    for k in range(2):
        h.eq('adds to one', sum(r[k] for r in allc), 1.0)
        for r in allc:
            h.check('positive', r[k] > 0)
    h.reach()


def many(h, g, nc, pad, m, gum=False):
    """many persons and categories (fixed responses)"""
    f = h.private('girth.unidimensional.polytomous.partial_integrals_poly', '_unfold_partial_integral' if gum else '_credit_partial_integral')
    th = h.reals('theta', 1, -8, 8)
    b = [h.real('b%d' % k, -5, 5) if k in (0, nc - 2) else (k - 3) * 0.5 for k in range(nc - 1)]
    d, a = h.real('d', -4, 4), h.real('a', 0.1, 3)
    X, M = [(j * j + j // 3) % nc for j in range(m)], [j % 13 == 5 for j in range(m)]
    resp, mask = h.arr([0 if q else x for x, q in zip(X, M)], int), h.arr(M, bool)
    t = h.lst(th)[0]
    if gum:
        O = f(th, d, h.arr(b + [float('nan')] * pad), a, h.arr([nc - 0.5 - k for k in range(nc + pad)]), resp, mask)
        want = ggum(h, t, d, b, a)
    else:
        O = f(th, h.arr([0.0] + b + [float('nan')] * pad), a, resp, mask)
        want = pcm(h, t, b, a)
    O = h.lst(O)
    for j in range(m):
        h.eq('likelihood', O[j][0], 1 if M[j] else want[X[j]])
    h.reach()


def unfold(h, g, nc, pad, m=2):
    f = h.private('girth.unidimensional.polytomous.partial_integrals_poly', '_unfold_partial_integral')
    th = h.reals('theta', 2, -8, 8)
    t = [h.real('t%d' % k, -6, 6) for k in range(nc - 1)]
    d, a = h.real('d', -5, 5), h.real('a', 0.01, 4)
    X, M, resp, mask = _resp(h, nc, m)
    betas = h.arr(t + [float('nan')] * pad)
    fold = h.arr([nc - 0.5 - k for k in range(nc + pad)])
    before = [h.copy(v) for v in (th, betas, fold)]
    O = f(th, d, betas, a, fold, resp, mask)
    h.check('shape', h.shape(O) == (m, 2))
    O, T = h.lst(O), h.lst(th)
    for j in range(m):
        for k in range(2):
            h.eq('likelihood', O[j][k], 1 if M[j] else ggum(h, T[k], d, t, a)[X[j]])
    for u, v in zip(before, (th, betas, fold)):
        h.unchanged('inputs', u, v)
    allc = h.lst(f(th, d, betas, a, fold, h.arr(list(range(nc)), int), h.arr([False] * nc, bool)))
    for k in range(2):
        h.eq('adds to one', sum(r[k] for r in allc), 1.0)
    h.reach()
