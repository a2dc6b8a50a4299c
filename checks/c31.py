"""Polyserial correlation: the likelihood handed to the (stubbed) search is evaluated at two arbitrary
correlations and compared with the conditional normal likelihood, for arbitrary continuous values; the
ordinal pattern and its coding are enumerated."""
BOUNDS = '3-6 persons, continuous values arbitrary in [-3, 3], 2-4 ordinal categories in any coding (negative, gapped, large, floating point, missing code values), every order of the persons\' categories; also 128 persons or 12 categories with one free value'
ASSUMPTIONS = ['fminbound returns an arbitrary point of its interval; that it is the optimum is its contract',
               'the normal distribution function is an uninterpreted function with Phi(-x) = 1 - Phi(x) and its inverse']

CODES = {'01': (0, 1), '123': (1, 2, 3), 'neg': (-5, 0, 7), 'gap': (2, 50), 'four': (1, 2, 3, 4), 'float': (0.5, 0.75, 1.25),
         'missing': (-99999, 3)}


def configs(tier):
    out = []
    for k, c in CODES.items():
        pat = {2: (0, 1, None, None), 3: (0, 1, 2, None), 4: (3, 1, 0, 2, None)}[len(c)]
        out.append(dict(name='objective-' + k, fn='objective', args=dict(codes=c, pat=pat)))
    out.append(dict(name='objective-wide', fn='objective', args=dict(codes=(1, 2, 3), pat=(2, 0, None, 1, None))))
    out.append(dict(name='objective-many', fn='objective', args=dict(codes=(1, 2, 3), pat=[(j * j + j // 5) % 3 for j in range(128)])))
    out.append(dict(name='objective-nine', fn='objective', args=dict(codes=tuple(range(-3, 9)), pat=[(5 * j) % 12 for j in range(32)])))
    out.append(dict(name='shift-scale', fn='invariant', args=dict(codes=(1, 2, 3), pat=(2, 0, 1, 0))))
    out.append(dict(name='shift-scale-2', fn='invariant', args=dict(codes=(0, 1), pat=(1, 0, 1))))
    out.append(dict(name='recoded', fn='recoded'))
    if tier == 'thorough':
        out.append(dict(name='objective-6', fn='objective', args=dict(codes=(1, 2, 3), pat=(2, 0, None, 1, None, None))))
        out.append(dict(name='objective-any', fn='objective', args=dict(codes=(1, 2, 3), pat=(None,) * 4)))
    return out


def _data(h, codes, pat):
    idx = [h.choose('o%d' % j, range(len(codes))) if p is None else p for j, p in enumerate(pat)]
    for j in range(len(codes)):
        if j not in idx:
            h.assume(False)
    x = [h.real('x%d' % j, -50, 50) if j == 0 or len(pat) < 20 else (j * 7 % 33) / 8 - 2 for j in range(len(pat))]
    # not all equal
    h.assume(len(pat) > 99 or h.any(*[h.abs(x[0] - v) > 0.3 for v in x[1:]]))
    return idx, x


def _spec(h, g, idx, x, ncat):
    m = len(x)
    mu = sum(x) / m
    sd = h.sqrt(sum((v - mu) * (v - mu) for v in x) / (m - 1))
    z = [(v - mu) / sd for v in x]
    cnt = [sum(1 for i in idx if i == k) for k in range(ncat)]
    cum = [sum(cnt[:k + 1]) / m for k in range(ncat - 1)]
    th = [h.sc(g.sp.special.ndtri(c)) for c in cum]
    Phi = lambda t: h.sc(g.sp.special.ndtr(t))

    def f(e):
        r = e.x
        den = h.sqrt(1 - r * r)
        tot = 0
        for i, zz in zip(idx, z):
            up = Phi((th[i] - r * zz) / den) if i < ncat - 1 else 1
            lo = Phi((th[i - 1] - r * zz) / den) if i else 0
            tot = tot - h.log(up - lo)
        return tot
    return f


def objective(h, g, codes, pat):
    idx, x = _data(h, codes, pat)
    c = h.arr(x)
    isf = any(isinstance(v, float) for v in codes)
    o = h.arr([codes[i] for i in idx], float if isf else int)
    b = [h.copy(c), h.copy(o)]
    out = g.polyserial_correlation(c, o)
    r = h.rec(0)
    h.check('one search', len(h.w.records) == 1)
    h.eq('returned value is the search result', h.sc(out), h.sc(r.result))
    h.check('search range', h.sc(r.lo) >= -1 and h.sc(r.lo) <= -0.98 and h.sc(r.hi) <= 1 and h.sc(r.hi) >= 0.98)
    h.same_objective('likelihood', r, _spec(h, g, idx, x, len(codes)))
    h.unchanged('continuous', b[0], c)
    h.unchanged('ordinal', b[1], o)
    h.reach()


def invariant(h, g, codes, pat):
    """scaled and shifted values: same likelihood as the original values"""
    idx, x = _data(h, codes, pat)
    s, t = h.real('scale', 0.02, 100), h.real('shift', -500, 500)
    g.polyserial_correlation(h.arr([s * v + t for v in x]), h.arr([codes[i] for i in idx], int))
    h.same_objective('shifted likelihood', h.rec(0), _spec(h, g, idx, x, len(codes)))
    h.reach()


def recoded(h, g):
    """only the order of the codes matters"""
    idx, x = _data(h, (0, 1, 2), (1, 0, 2, 0))
    for k, codes in enumerate(((1, 2, 3), (-7, 3, 1000))):
        g.polyserial_correlation(h.arr(x), h.arr([codes[i] for i in idx], int))
        h.same_objective('recoded likelihood', h.rec(k), _spec(h, g, idx, x, 3))
    h.reach()
