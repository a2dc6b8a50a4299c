"""Latent density estimation: which weights are used when, what the search maximises under which constraints, AIC and BIC."""
from .spec import quad
from .c26 import knots_of, bspline

BOUNDS = '1-3 persons with arbitrary likelihoods in [0.05, 1] at 8-9 locations (the true Gauss-Legendre rule, or arbitrary locations for the fixed density), 5-9 knots, several integration ranges, 1-3 passes'
ASSUMPTIONS = ['fmin_slsqp returns an arbitrary point of its range and evaluates the objective there last; optimality is its contract',
               'the integration range is symmetric about zero when the density is estimated']

MOD = 'girth.utilities.latent_ability_distribution'


def configs(tier):
    out = []
    for est in (False, True):
        out.append(dict(name='fixed-%s' % est, fn='fixed', args=dict(est=est), max_paths=40))
    out.append(dict(name='defaults', fn='defaults', args={}))
    w = dict(real_nodes=True, probes={0: 1, 1: 1})
    for name, m, n, b, qn, passes in (('5', 2, 5, 4.0, 8, 1), ('7', 1, 7, 5.0, 8, 1), ('passes', 1, 5, 3.0, 8, 2), ('9', 1, 9, 6.0, 9, 1), ('6', 2, 6, 4.5, 9, 1)):
        out.append(dict(name='estimated-%s' % name, fn='estimated', args=dict(m=m, n=n, b=b, qn=qn, passes=passes), world=w, cost=passes * m * n))
    for n, b in ((5, 4.0), (7, 3.0), (6, 4.5)):
        out.append(dict(name='constraints-%d' % n, fn='constraints', args=dict(n=n, b=b), world=w))
    for m in (1, 2, 3):
        out.append(dict(name='criteria-%d' % m, fn='criteria', args=dict(m=m)))
    if tier == 'thorough':
        for name, m, n, b, qn, passes in (('11', 2, 11, 4.0, 11, 1), ('5x3', 3, 5, 5.0, 8, 3), ('13', 1, 13, 4.0, 9, 2)):
            out.append(dict(name='t-estimated-%s' % name, fn='estimated', args=dict(m=m, n=n, b=b, qn=qn, passes=passes), world=w, cost=passes * m * n))
    return out


def fixed(h, g, est):
    """the configured density: never estimated, or not yet"""
    lo, hi = h.real('lo', -12, -1), h.real('hi', 0.5, 12)
    if est:
        lo = -hi
    f = h.uf('prior', 0.01, 1)
    opt = dict(quadrature_n=8, quadrature_bounds=(lo, hi), distribution=f, estimate_distribution=est, number_of_samples=7)
    keep = dict(opt)
    pdf = g.mod(MOD).LatentPDF(opt)
    h.check('options unchanged', opt == keep)
    xs, ws = quad(h, g, 8, lo, hi)
    it = 0 if est else h.choose('iteration', (0, 1, 2, 50))
    L = h.arr([[0.5] * 8])
    for k in range(2):
        got = h.lst(pdf(L if k else None, it))
        h.check('one weight per location', len(got) == 8)
        for v, x, w in zip(got, xs, ws):
            h.eq('configured density times weight', v, h.sc(f(x)) * w)
    for u, v in zip(h.lst(pdf.quadrature_locations), xs):
        h.eq('locations', u, v)
    h.check('no search', not h.w.records)
    h.reach()


def defaults(h, g):
    d = g.default_options()
    pdf = g.mod(MOD).LatentPDF()
    xs, ws = quad(h, g, d['quadrature_n'], *d['quadrature_bounds'])
    for it in (0, 1):
        for v, x, w in zip(h.lst(pdf(None, it)), xs, ws):
            h.eq('default density times weight', v, h.sc(d['distribution'](x)) * w)
    h.reach()


def density(h, coef, n, b, x):
    kn, d = knots_of(n, b)
    return sum(c * bspline(h, (x - k) / d) for c, k in zip(coef, kn[2:-2]) if abs(x - k) < 2 * d) / d


def estimated(h, g, m, n, b, qn, passes):
    f = h.uf('prior', 0.01, 1)
    pdf = g.mod(MOD).LatentPDF(dict(quadrature_n=qn, quadrature_bounds=(-b, b), distribution=f, estimate_distribution=True, number_of_samples=n))
    xs, ws = quad(h, g, qn, -b, b)
    for v, x, w in zip(h.lst(pdf(None, 0)), xs, ws):
        h.eq('first pass', v, h.sc(f(x)) * w)
    for p in range(passes):
        L = [[h.real('L%d_%d_%d' % (p, j, k), 0.002, 1) for k in range(qn)] for j in range(m)]
        arr = h.arr(L)
        before = h.copy(arr)
        k = len(h.w.records)
        got = h.lst(pdf(arr, p + h.choose('first', (1, 2))))
        h.unchanged('likelihoods', before, arr)
        h.check('one search per pass', len(h.w.records) == k + 1)
        rec = h.w.records[-1]

        def spec(e):
            c = [h.sc(v) for v in h.lst(e.x)]
            fx = [density(h, c, n, b, x) for x in xs]
            return -sum(h.log(sum(l * u * w for l, u, w in zip(r, fx, ws))) for r in L)
        h.same_objective('marginal likelihood of the density', rec, spec)
        for v in h.lst(rec.lo):
            h.eq('non-negative', h.sc(v), 0)
        c = [h.sc(v) for v in h.lst(rec.result)]
        for v, x, w in zip(got, xs, ws):
            h.eq('density times weight', v, density(h, c, n, b, x) * w)
        for u, v in zip(h.lst(pdf.cubic_splines[-1].coefficients), [0, 0] + c + [0, 0]):
            h.eq('stored density', u, v)
    for u, x in zip(h.lst(pdf.null_distribution), xs):
        h.eq('the configured density is kept', u, h.sc(f(x)))
    h.reach()


def constraints(h, g, n, b):
    """mass, mean and variance of the density: integral of each spline is 1, its mean the knot, its variance spacing^2 / 3"""
    pdf = g.mod(MOD).LatentPDF(dict(quadrature_n=8, quadrature_bounds=(-b, b), estimate_distribution=True, number_of_samples=n))
    pdf(h.arr([[0.5] * 8]), 1)
    rec = h.w.records[-1]
    eqs = rec.extra.get('eqs', [])
    h.check('the search is constrained', len(eqs) > 0)
    if not eqs:
        return
    kn, d = knots_of(n, b)
    kn = kn[2:-2]
    # any density of mass 1+u, mean v and second moment 1+w: all coefficients but three are free
    u, v, w = [h.choose(k, (0.0, 0.25, -0.25)) for k in 'uvw']
    c = [h.real('c%d' % q, 0, 1.5) for q in range(n - 3)]
    c += _solve(kn[-3:], [1 + u - sum(c), v - sum(x * k for x, k in zip(c, kn)),
                          1 + w - sum(x * (k * k + d * d / 3) for x, k in zip(c, kn))], d)
    code = []
    for f in eqs:
        r = h.lst(f(h.arr(c), *rec.extra['args']))
        code += [h.sc(x) for x in r] if isinstance(r, list) else [h.sc(r)]
    if u == v == w == 0:
        for x in code:
            h.eq('met by every density of unit mass, zero mean and unit variance', x, 0)
    else:
        h.check('other densities are excluded', h.any(*[h.any(x > 1e-3, x < -1e-3) for x in code]))
    h.reach()


def _solve(k, rhs, d):
    """coefficients of three splines at the knots k (spacing d) with given mass, mean and second moment"""
    m0, m1 = rhs[0], rhs[1]
    m2 = rhs[2] - d * d / 3 * m0
    # Lagrange form: the moment functional applied to the basis polynomials
    out = []
    for i in range(3):
        p, q = [k[j] for j in range(3) if j != i]
        out.append((m2 - (p + q) * m1 + p * q * m0) / ((k[i] - p) * (k[i] - q)))
    return out


def criteria(h, g, m):
    pdf = g.mod(MOD).LatentPDF()
    L = [[h.real('L%d_%d' % (j, k), 0.002, 1) for k in range(3)] for j in range(m)]
    w = [h.real('w%d' % k, 0.002, 1) for k in range(3)]
    n = h.real('k', 0, 400)
    aic, bic = pdf.compute_metrics(h.arr(L), h.arr(w), n)
    ll = sum(h.log(sum(u * v for u, v in zip(r, w))) for r in L)
    h.eq('AIC', h.sc(aic), 2 * n - 2 * ll)
    h.eq('BIC', h.sc(bic), (n * h.log(m) if m > 1 else 0) - 2 * ll)
    h.reach()
