"""Quadrature: affine map of the n-point Gauss-Legendre rule to the configured bounds.

The rule on [-1, 1] (scipy) is an arbitrary symbolic set of nodes and weights named by its order
n, so the mapped locations and weights are compared as identities over every rule and interval;
exactness for polynomials follows from the affine map (also asserted for degrees 0..3 from the
moments of the rule)."""
from . import spec

BOUNDS = 'rules of 1..12 points (all nodes symbolic up to 12), bounds symbolic reals a<b in [-20,20]; sequences of 11 calls on related intervals'
ASSUMPTIONS = ['scipy.special.roots_legendre(n) returns the n-point Gauss-Legendre rule on [-1,1]']


def configs(tier):
    out = []
    for n in (1, 2, 3, 8, 11, 12) + ((21, 41) if tier == 'thorough' else ()):
        out.append(dict(name='points-%d' % n, fn='points', args=dict(n=n), world=dict(active=list(range(n)))))
    for n in (8, 9, 12):
        for est in (False, True):
            out.append(dict(name='latent-%d-%s' % (n, est), fn='latent', args=dict(n=n, est=est), world=dict(active=list(range(n)))))
    out.append(dict(name='latent-default', fn='default', world=dict(active=list(range(41)))))
    for deg in (0, 1, 2, 3):
        out.append(dict(name='moment-%d' % deg, fn='moment', args=dict(deg=deg), world=dict(active=list(range(3)))))
    for how in ('rule', 'density'):
        out.append(dict(name='history-' + how, fn='history', args=dict(how=how), world=dict(active=list(range(9)))))
    return out


HISTORY = [(8, -4, 4), (8, -2, 6), (9, -4, 4), (8, -4, 6), (8, -6, 4), (8, -5, 5), (8, -4, 4), (9, -1, 3), (9, 0, 4), (8, -2, 6), (9, -4, 4)]


def history(h, g, how):
    """calls do not influence each other, also where intervals share an end, their middle or their length with an
    earlier one and the caller uses the earlier arrays for something else"""
    f = h.private('girth.utilities.utils', '_get_quadrature_points')
    u = h.uf('dist')
    for k, (n, a, b) in enumerate(HISTORY):
        if how == 'rule':
            x, w = f(n, a, b)
        else:
            pdf = g.mod('girth.utilities').LatentPDF({'quadrature_n': n, 'quadrature_bounds': (a, b), 'distribution': u,
                                                      'estimate_distribution': False})
            x, w = pdf.quadrature_locations, pdf.weights
            h.eq('density at the locations', h.lst(pdf.null_distribution), [h.sc(u(v)) for v in spec.quad(h, g, n, a, b)[0]])
        xs, ws = spec.quad(h, g, n, a, b)
        h.eq('locations of call %d' % k, h.lst(x), xs)
        h.eq('weights of call %d' % k, h.lst(w), ws)
        if how == 'rule':
            x *= 0.5
            w *= 0.0
    h.reach()


def _interval(h):
    a, b = h.real('a', -20, 20), h.real('b', -20, 20)
    h.assume(a < b)
    return a, b


def points(h, g, n):
    f = h.private('girth.utilities.utils', '_get_quadrature_points')
    a, b = _interval(h)
    x, w = f(n, a, b)
    xs, ws = spec.quad(h, g, n, a, b)
    h.check('number of points', h.shape(x) == (n,) and h.shape(w) == (n,))
    h.eq('locations', h.lst(x), xs)
    h.eq('weights', h.lst(w), ws)
    h.reach()


def latent(h, g, n, est):
    a, b = _interval(h)
    f = h.uf('dist')
    pdf = g.mod('girth.utilities').LatentPDF({'quadrature_n': n, 'quadrature_bounds': (a, b), 'distribution': f,
                                              'estimate_distribution': est})
    xs, ws = spec.quad(h, g, n, a, b)
    h.eq('locations', h.lst(pdf.quadrature_locations), xs)
    h.eq('weights', h.lst(pdf.weights), ws)
    h.eq('density at the locations', h.lst(pdf.null_distribution), [h.sc(f(x)) for x in xs])
    h.reach()


def default(h, g):
    pdf = g.mod('girth.utilities').LatentPDF()
    d = g.default_options()
    xs, ws = spec.quad(h, g, d['quadrature_n'], *d['quadrature_bounds'])
    h.eq('locations', h.lst(pdf.quadrature_locations), xs)
    h.eq('weights', h.lst(pdf.weights), ws)
    h.reach()


def moment(h, g, deg):
    """a rule exact for degree `deg` on [-1,1] stays exact on [a,b]"""
    f = h.private('girth.utilities.utils', '_get_quadrature_points')
    a, b = _interval(h)
    x, w = f(3, a, b)
    gx, gw = [h.lst(v) for v in g.sp.special.roots_legendre(3)]
    c, s = (a + b) / 2, (b - a) / 2
    # defect of the rule at each degree k <= deg (zero for a Gauss rule)
    e = [sum(q * p ** k for p, q in zip(gx, gw)) - (0 if k % 2 else 2.0 / (k + 1)) for k in range(deg + 1)]
    exact = (b ** (deg + 1) - a ** (deg + 1)) / (deg + 1)
    got = sum(q * p ** deg for p, q in zip(h.lst(x), h.lst(w)))
    binom = [[1], [1, 1], [1, 2, 1], [1, 3, 3, 1]][deg]
    defect = sum(binom[k] * c ** (deg - k) * s ** (k + 1) * e[k] for k in range(deg + 1))
    h.eq('integral of x^%d' % deg, got, exact + defect)
    h.reach()
