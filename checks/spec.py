"""Specification side: the models and rules stated in the properties, written
independently of the code under test, on plain python scalars (symbolic or not)."""

INVALID = -99999


def p2(h, theta, b, a):
    """probability of a correct answer, two parameter logistic"""
    return h.expit(a * (theta - b))


def p3(h, theta, b, a, c):
    return c + (1 - c) * h.expit(a * (theta - b))


def like2(h, x, theta, b, a, c=0):
    """likelihood of one response (1, 0 or missing)"""
    if x == 1:
        return p3(h, theta, b, a, c)
    if x == 0:
        return 1 - p3(h, theta, b, a, c)
    return 1


def grm(h, theta, bs, a):
    """graded response category probabilities, difficulty parameterisation"""
    cum = [1] + [h.expit(a * (theta - b)) for b in bs] + [0]
    return [cum[k] - cum[k + 1] for k in range(len(bs) + 1)]


def grm_slope(h, kern, ds):
    """graded response, slope-intercept (decreasing intercepts)"""
    cum = [1] + [h.expit(kern + d) for d in ds] + [0]
    return [cum[k] - cum[k + 1] for k in range(len(ds) + 1)]


def pcm(h, theta, bs, a):
    """generalised partial credit category probabilities"""
    tot = 0
    e = [1]
    for b in bs:
        tot = tot + a * (theta - b)
        e.append(h.exp(tot))
    s = sum(e)
    return [v / s for v in e]


def ggum(h, theta, delta, taus, a):
    """generalised graded unfolding category probabilities (M = len(taus))

    P(z) ~ exp(a (z (theta-delta) - sum_{k<=z} tau_k)) +
           exp(a ((2M+1-z)(theta-delta) - sum_{k<=z} tau_k))
    """
    m = len(taus)
    e = []
    tot = 0
    for z in range(m + 1):
        if z:
            tot = tot + taus[z - 1]
        d = theta - delta
        e.append(h.exp(a * (z * d - tot)) + h.exp(a * ((2 * m + 1 - z) * d - tot)))
    s = sum(e)
    return [v / s for v in e]


def quad(h, g, n, lo, hi):
    """Gauss-Legendre rule of n points mapped to [lo, hi], via the documented rule"""
    x, w = g.sp.special.roots_legendre(n)
    s = (hi - lo) / 2.0
    xs = [lo + s * (v + 1) for v in h.lst(x)]
    ws = [s * v for v in h.lst(w)]
    return xs, ws


def active(xs, ws):
    """drop nodes of weight 0"""
    pairs = [(x, w) for x, w in zip(xs, ws) if not (not hasattr(w, 'd') and w == 0)]
    return [p[0] for p in pairs], [p[1] for p in pairs]


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def mean(xs):
    return sum(xs) / len(xs)


def var(xs, ddof=0):
    m = mean(xs)
    return sum((x - m) * (x - m) for x in xs) / (len(xs) - ddof)


def opts(h, default=False, qn=8, **extra):
    """an arbitrary latent density and integration interval; (options, n, bounds, density)"""
    if default:
        d = h.g.default_options()
        return (dict(extra) or None), d['quadrature_n'], d['quadrature_bounds'], d['distribution']
    lo, hi = h.real('lo', -10, -1), h.real('hi', 0.5, 10)
    f = h.uf('prior')
    return dict(quadrature_n=qn, quadrature_bounds=(lo, hi), distribution=f, **extra), qn, (lo, hi), f


def grid(h, g, qn, bounds, f):
    """active quadrature locations and density-times-weight"""
    xs, ws = active(*quad(h, g, qn, *bounds))
    return xs, [w * h.sc(f(x)) for x, w in zip(xs, ws)]


def same(a, b):
    """the very same value (symbolically or numerically)"""
    if hasattr(a, 'd') or hasattr(b, 'd'):
        return hasattr(a, 'd') and hasattr(b, 'd') and a.key == b.key
    return a == b


def find(recs, v, h=None):
    """position of the search that returned v"""
    for i, r in enumerate(recs):
        if r.result is not None and same(h.sc(r.result) if h else r.result, v):
            return i
    return None
