"""The spline density against the truncated power form of the cubic B-spline, at any location (given by the gap between
two knots it lies in and its arbitrary position there) and for any coefficients."""
from .spec import same

BOUNDS = '3-13 knots, symmetric integration ranges (fixed and arbitrary), every coefficient vector, every location on and up to four gaps beyond the knots; resampling between 3-13 knots'
ASSUMPTIONS = ['the integration range is symmetric about zero', 'the search of resample() returns an arbitrary point of its range; optimality is its contract']

MOD = 'girth.utilities.latent_ability_distribution'


def configs(tier):
    out = []
    for n, b in ((3, 3.0), (5, 4.0), (5, None), (6, 4.5), (7, 5.0), (7, None), (9, 6.0), (13, 4.0), (13, None), (8, 4.0)):
        out.append(dict(name='value-%d-%s' % (n, b), fn='value', args=dict(n=n, b=b), max_paths=60, cost=n))
    for n, b in ((5, 4.0), (7, 5.0), (4, 3.5)):
        out.append(dict(name='knots-%d' % n, fn='knots', args=dict(n=n, b=b)))
        out.append(dict(name='continuous-%d' % n, fn='continuous', args=dict(n=n, b=b), max_paths=60, cost=n))
        out.append(dict(name='unity-%d' % n, fn='unity', args=dict(n=n, b=b), max_paths=60, cost=n))
    out.append(dict(name='sizes', fn='sizes', args={}))
    for n, m in ((5, 13), (13, 5), (3, 5), (7, 5), (4, 5)):
        out.append(dict(name='resample-%d-%d' % (n, m), fn='resample', args=dict(n=n, m=m), world=dict(probes={0: 1, 1: 1}), cost=9))
    if tier == 'thorough':
        for n, b in ((4, None), (17, 5.0), (29, 4.0), (29, None), (10, 2.0)):
            out.append(dict(name='t-value-%d-%s' % (n, b), fn='value', args=dict(n=n, b=b), max_paths=100, cost=n))
            out.append(dict(name='t-unity-%d' % n, fn='unity', args=dict(n=n, b=b or 4.0), max_paths=100, cost=n))
        for n, m in ((9, 5), (9, 13), (29, 5)):
            out.append(dict(name='t-resample-%d-%d' % (n, m), fn='resample', args=dict(n=n, m=m), world=dict(probes={0: 2, 1: 1}), cost=9))
    return out


def knots_of(n, b):
    """n knots with two extra at either end, the outermost gap ending at the range"""
    d = 2 * b / (n + 3)
    return [(q - (n - 1) / 2) * d for q in range(-2, n + 2)], d


def bspline(h, u):
    """unit cubic B-spline: sum over k of (-1)^k C(4,k) (u+2-k)_+^3 / 6"""
    tot = 0
    for k, c in enumerate((1, -4, 6, -4, 1)):
        v = u + 2 - k
        if h.truth(v > 0):
            tot = tot + c * v * v * v
    return tot / 6


def density(h, n, b, coef, gap, t):
    """expansion at the location t of the way through gap number `gap` (0: between the first two of the n knots)"""
    d = 2 * b / (n + 3)
    tot = 0
    for q in range(n):
        r = gap - q
        if -3 < r < 2 or r == -3 or r == 2:
            tot = tot + coef[q] * bspline(h, r + t)
    return tot / d


def setup(h, g, n, b, extra=5):
    b = h.real('b', 0.5, 8) if b is None else b
    s = g.mod(MOD).CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-b, b)))
    coef = [h.real('c%d' % q, -1, 1) for q in range(n)]
    s.update_coefficients(h.arr(coef))
    lo = h.real('t', 0, 1)
    gap = h.choose('gap', list(range(-extra, n + extra - 1)))
    if h.choose('where', ('knot', 'between')) == 'knot':
        lo = 0.0
    else:
        h.assume(lo > 0.001)
        h.assume(lo < 0.999)
    kn, d = knots_of(n, b)
    return s, coef, b, gap, lo, kn[2] + (gap + lo) * d, d


def value(h, g, n, b):
    s, coef, b, gap, t, x, d = setup(h, g, n, b)
    want = density(h, n, b, coef, gap, t)
    h.eq('density', h.lst(s(h.arr([x])))[0], want)
    h.eq('repeated', h.lst(s(h.arr([x, x])))[1], want)
    h.eq('scalar location', h.lst(s(x))[0], want)
    row = h.lst(s.filter_matrix(h.arr([x])))[0]
    h.check('one column per knot', len(row) == n + 4)
    h.reach()


def knots(h, g, n, b):
    s = g.mod(MOD).CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-b, b)))
    kn, d = knots_of(n, b)
    h.eq('spacing', s.delta_sample, d)
    got = h.lst(s.sample_space)
    h.check('number of knots', len(got) == n + 4)
    for u, v in zip(got, kn):
        h.eq('knot', u, v)
    coef = [h.real('c%d' % q, -1, 1) for q in range(n)]
    s.update_coefficients(h.arr([0.5] * n))
    s.update_coefficients(h.arr(coef))
    for u, v in zip(h.lst(s.coefficients), [0, 0] + coef + [0, 0]):
        h.eq('padded coefficients', u, v)
    # two objects do not share their coefficients
    r = g.mod(MOD).CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-b, b)))
    r.update_coefficients(h.arr([1.0] * n))
    for u, v in zip(h.lst(s.coefficients), [0, 0] + coef + [0, 0]):
        h.eq('own coefficients', u, v)
    h.reach()


def unity(h, g, n, b):
    """the splines of all knots (the extra ones included) add to one up to the ends of the range"""
    s, coef, b, gap, t, x, d = setup(h, g, n, b, extra=1)
    h.eq('sum of the splines', sum(h.lst(s.filter_matrix(h.arr([x])))[0]), 1)
    h.reach()


def continuous(h, g, n, b):
    s, coef, b, gap, t, x, d = setup(h, g, n, b, extra=3)
    step = h.choose('step', (1, 2))
    xs, ys = s.continuous_pdf(bounds=(x, x + 3 * step * d), n_points=4)
    xs, ys = h.lst(xs), h.lst(ys)
    h.check('points', len(xs) == 4 and len(ys) == 4)
    for q in range(4):
        h.eq('location', xs[q], x + q * step * d)
        h.eq('continuous density', ys[q], density(h, n, b, coef, gap + q * step, t))
    h.reach()


def sizes(h, g):
    n = h.choose('n', (3, 5, 7))
    s = g.mod(MOD).CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-4.0, 4.0)))
    coef = [h.real('c%d' % q, -1, 1) for q in range(n)]
    s.update_coefficients(h.arr(coef))
    for k in (0, 1, n - 2, n - 1, n + 1, n + 2, n + 4, 2 * n):
        if k != n:
            r = h.outcome(lambda: s.update_coefficients(h.arr([0.25] * k)))
            h.check('wrong length refused: %d' % k, r[0] == 'raise')
    for u, v in zip(h.lst(s.coefficients), [0, 0] + coef + [0, 0]):
        h.eq('coefficients kept', u, v)
    h.reach()


def resample(h, g, n, m):
    M = g.mod(MOD)
    if not hasattr(M, 'resample'):
        h.private(MOD, 'resample')
    b = 4.0
    s = M.CubicSplinePDF(dict(number_of_samples=n, quadrature_bounds=(-b, b)))
    coef = [h.real('c%d' % q, 0, 1) for q in range(n)]
    s.update_coefficients(h.arr(coef))
    h.check('same number refused', h.outcome(lambda: M.resample(s, n))[0] == 'raise')
    new = M.resample(s, m)
    h.check('a single search', len(h.w.records) == 1)
    rec = h.w.records[0]
    kn, d = knots_of(m, b)
    kn0, d0 = knots_of(n, b)

    def at(x, coefs, kn, d):
        return sum(c * bspline(h, (x - k) / d) for c, k in zip(coefs, kn[2:-2]) if abs(x - k) < 2 * d) / d

    def spec(e):
        c = [h.sc(v) for v in h.lst(e.x)]
        return sum((at(x, coef, kn0, d0) - at(x, c, kn, d)) ** 2 for x in kn)
    h.same_objective('squared difference at the new knots', rec, spec)
    h.check('size', new.number_of_samples == m)
    res = [h.sc(v) for v in h.lst(rec.result)]
    for u, v in zip(h.lst(new.coefficients), [0, 0] + res + [0, 0]):
        h.eq('coefficients of the search', u, v)
    for u, v in zip(h.lst(s.coefficients), [0, 0] + coef + [0, 0]):
        h.eq('the given spline is kept', u, v)
    for v in h.lst(rec.lo):
        h.eq('non-negative', h.sc(v), 0)
    h.reach()
