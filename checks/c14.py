"""Expected-a-posteriori abilities against the quadrature-weighted posterior mean, for all item
parameters, response patterns with missing cells, latent densities (an uninterpreted positive
function), quadrature rules (arbitrary nodes and weights) and integration bounds."""
from .spec import INVALID, like2, grm_slope, prod, quad, active

BOUNDS = 'dichotomous: 1-3 items x 2 persons, 2-3 active nodes of an 8 point rule; several dimensions: 2 factors, 2-3 items of 2-3 categories, 3-4 persons, 2 active nodes per factor; difficulty in [-3,3], discrimination in [0.2,3], guessing in [0,0.4], bounds a<b in [-6,6]; also fixed data of 70-130 persons or 9-16 items'
ASSUMPTIONS = ['scipy Gauss-Legendre rule is an arbitrary set of nodes and positive weights on [-1,1]; all but the active nodes get weight zero',
               'several dimensions: every item shows all of its categories in the dataset (categories are recoded from the data)']


def configs(tier):
    w2, w3 = dict(active=[0, 7]), dict(active=[1, 4, 6])
    out = []
    for a in ('array', 'scalar', 'size1', 'int'):
        out.append(dict(name='eap-' + a, fn='two', args=dict(a=a, n=2, fixed=1), world=w2))
    out.append(dict(name='eap-1item', fn='two', args=dict(a='array', n=1), world=w3))
    out.append(dict(name='eap-3nodes', fn='two', args=dict(a='array', n=2), world=w3, max_paths=90))
    out.append(dict(name='eap-2nodes-other', fn='two', args=dict(a='array', n=2, qn=9, fixed=1), world=dict(active=[2, 8])))
    out.append(dict(name='eap-3items', fn='two', args=dict(a='array', n=3, fixed=1), world=w2, max_paths=60))
    out.append(dict(name='eap-default', fn='two', args=dict(a='array', n=1, default=True), world=dict(active=[3, 30])))
    out.append(dict(name='3pl', cost=8, fn='three', args=dict(n=1), world=w2, max_paths=90))
    out.append(dict(name='3pl-2', cost=9, fn='three', args=dict(n=2, fixed=1), world=w2, max_paths=90))
    out.append(dict(name='3pl-default', fn='three', args=dict(n=1, default=True), world=dict(active=[3, 30])))
    for a, w in (('array', 'b'), ('scalar', 'b'), ('size1', 'b'), ('array', 'a'), ('array', 'ab')):
        out.append(dict(name='eap-whole-%s-%s' % (w, a), fn='two', args=dict(a=a, n=2, m=1, whole=w), world=w2))
    for w in ('b', 'a', 'c', 'abc'):
        out.append(dict(name='3pl-whole-' + w, fn='three', args=dict(n=1, m=1, whole=w), world=w2))
    out.append(dict(name='md-whole-d', fn='multi', args=dict(cats=(2, 2), nf=2, whole='d'), world=w2))
    out.append(dict(name='md-whole-a', fn='multi', args=dict(cats=(2, 2), nf=2, whole='a'), world=w2))
    out.append(dict(name='md-2x2', fn='multi', args=dict(cats=(2, 2), nf=2), world=w2))
    out.append(dict(name='md-2x3', fn='multi', args=dict(cats=(2, 3), nf=2), world=w2))
    out.append(dict(name='md-3x2', fn='multi', args=dict(cats=(3, 2), nf=2), world=w2))
    out.append(dict(name='md-f3', fn='multi', args=dict(cats=(2,), nf=3), world=w2))
    out.append(dict(name='md-flat', fn='multi', args=dict(cats=(2, 2), nf=2, flat=True), world=w2))
    out += [dict(name='eap-many-persons', fn='two', args=dict(a='array', n=2, m=130, fixed=130), world=w2), dict(name='eap-many-items', fn='two', args=dict(a='array', n=14, m=2, fixed=2), world=dict(active=[2])),
            dict(name='3pl-many-persons', fn='three', args=dict(n=2, m=80, fixed=80), world=w2), dict(name='3pl-many-items', fn='three', args=dict(n=9, m=2, fixed=2), world=dict(active=[2]))]
    if tier == 'thorough':
        out.append(dict(name='eap-3items-all', fn='two', args=dict(a='array', n=3), world=w2, max_paths=729))
        out.append(dict(name='md-f3-2x2x2', fn='multi', args=dict(cats=(2, 2, 2), nf=3), world=w2, max_paths=30))
        out.append(dict(name='md-3x3', fn='multi', args=dict(cats=(3, 3), nf=2), world=dict(active=[0, 3, 7])))
    return out


def _opts(h, default=False, qn=8):
    if default:
        d = h.g.default_options()
        return None, d['quadrature_n'], d['quadrature_bounds'], d['distribution']
    lo, hi = h.real('lo', -12, -1), h.real('hi', 0.5, 12)
    f = h.uf('prior')
    return dict(quadrature_n=qn, quadrature_bounds=(lo, hi), distribution=f), qn, (lo, hi), f


def _cells(h, n, m, fixed=0):
    """all response patterns; the first `fixed` persons keep one pattern"""
    X = [[None] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            X[i][j] = ((INVALID if (i + 3 * j) % 11 == 7 else (i * i + i * j + j // 2) % 5 % 2) if m > 3 or n > 3 else i % 2) if j < fixed else h.choose('x%d_%d' % (i, j), (0, 1, INVALID))
    return X


def part(h, whole, k, name, n, lo, hi):
    """a parameter vector, of whole numbers in an integer array if asked for"""
    if k not in whole:
        return h.reals(name, n, lo, hi)
    return h.arr([h.choose('%s%d' % (name, i), dict(b=(-1, 2), a=(1, 2), c=(0,))[k]) for i in range(n)], 'int64')


def two(h, g, a, n, fixed=0, default=False, qn=8, m=2, whole=''):
    opt, qn, (lo, hi), f = _opts(h, default, qn)
    b = part(h, whole, 'b', 'b', n, -7, 7)
    if a == 'array':
        A = part(h, whole, 'a', 'a', n, 0.05, 6)
        al = h.lst(A)
    elif a == 'int':
        A, al = 2, [2] * n
    else:
        v = h.real('a', 0.05, 6)
        A = v if a == 'scalar' else h.arr([v])
        al = [v] * n
    X = _cells(h, n, m, fixed)
    data = h.arr(X, int)
    before = [h.copy(data), h.copy(b)]
    out = g.ability_eap(data, b, A, opt) if opt is not None else g.ability_eap(data, b, A)
    h.check('one ability per person', h.shape(out) == (m,))
    _posterior(h, g, h.lst(out), X, h.lst(b), al, [0] * n, qn, lo, hi, f)
    h.unchanged('data', before[0], data)
    h.unchanged('difficulty', before[1], b)
    h.reach()


def _posterior(h, g, out, X, B, A, C, qn, lo, hi, f):
    xs, ws = active(*quad(h, g, qn, lo, hi))
    for j in range(len(X[0])):
        num = den = 0
        for x, w in zip(xs, ws):
            v = prod(like2(h, X[i][j], x, B[i], A[i], C[i]) for i in range(len(X))) * w * h.sc(f(x))
            num, den = num + v * x, den + v
        h.eq('posterior mean', out[j], num / den)


def three(h, g, n, fixed=0, default=False, m=2, whole=''):
    opt, qn, (lo, hi), f = _opts(h, default)
    b, a, c = part(h, whole, 'b', 'b', n, -7, 7), part(h, whole, 'a', 'a', n, 0.05, 6), part(h, whole, 'c', 'c', n, 0, 0.9)
    X = _cells(h, n, m, fixed)
    data = h.arr(X, int)
    before = h.copy(data)
    fn = h.g.mod('girth').ability_3pl_eap
    out = fn(data, b, a, c, opt) if opt is not None else fn(data, b, a, c)
    h.check('one ability per person', h.shape(out) == (m,))
    _posterior(h, g, h.lst(out), X, h.lst(b), h.lst(a), h.lst(c), qn, lo, hi, f)
    h.unchanged('data', before, data)
    h.reach()


def multi(h, g, cats, nf, flat=False, whole=''):
    opt, qn, (lo, hi), f = _opts(h)
    n = len(cats)
    top = max(cats)
    m = top + 1
    # the first persons show every category of every item; the last one is arbitrary
    X = [[min(j, c - 1) for j in range(top)] for c in cats]
    for i, c in enumerate(cats):
        X[i].append(h.choose('x%d' % i, tuple(range(c)) + (INVALID,)))
    D = [[h.choose('d%d_%d' % (i, k), (-1, 2)) if 'd' in whole else h.real('d%d_%d' % (i, k), -7, 7) for k in range(c - 1)] for i, c in enumerate(cats)]
    A = [[1 + i - 2 * q if 'a' in whole else h.real('a%d_%d' % (i, q), -5, 5) for q in range(nf)] for i in range(n)]
    diff = h.arr(D, 'int64') if 'd' in whole else h.arr([d[0] for d in D]) if flat else h.arr([d + [float('nan')] * (top - 1 - len(d)) for d in D])
    disc = h.arr(A, 'int64') if 'a' in whole else h.arr(A)
    base = h.choose('base', (0, 1))
    data = h.arr([[v if v == INVALID else v + base for v in r] for r in X], int)
    before = [h.copy(data), h.copy(diff), h.copy(disc)]
    out = g.multidimensional_ability_eap(data, diff, disc, opt)
    h.check('factors by persons', h.shape(out) == (nf, m))
    O = h.lst(out)
    xs, ws = active(*quad(h, g, qn, lo, hi))
    grid = [((), 1)]
    for _ in range(nf):
        grid = [(p + (x,), w0 * w * h.sc(f(x))) for p, w0 in grid for x, w in zip(xs, ws)]
    for j in range(m):
        den, num = 0, [0] * nf
        for p, w in grid:
            v = w
            for i in range(n):
                if X[i][j] != INVALID:
                    v = v * grm_slope(h, sum(A[i][q] * p[q] for q in range(nf)), D[i])[X[i][j]]
            den = den + v
            for q in range(nf):
                num[q] = num[q] + v * p[q]
        for q in range(nf):
            h.eq('posterior mean of a factor', O[q][j], num[q] / den)
    for u, v in zip(before, (data, diff, disc)):
        h.unchanged('inputs', u, v)
    h.reach()
