"""Dichotomous likelihoods: likelihood tables against the logistic models, for all real parameters.

Parameters, abilities and responses (with missing cells) are solver variables; the identity is
established per cell of the table for every value."""
from .spec import INVALID, like2, p3, prod

BOUNDS = '3 persons x 2 abilities x 1-3 items (fixed patterns: 150 persons, 61 abilities, 9 items); difficulty/ability in [-6,6], discrimination in [0.1,4], guessing in [0,0.5]'


def configs(tier):
    out = [dict(name='1pl-2pl', fn='two'), dict(name='complement', fn='complement'),
           dict(name='1pl-2pl-int8', fn='two', args=dict(dt='int8')),
           dict(name='pattern', fn='pattern', max_paths=400),
           dict(name='3pl-1', fn='three', args=dict(n=1, m=2), max_paths=100),
           dict(name='3pl-2', fn='three', args=dict(n=2, m=2), max_paths=200)]
    out += [dict(name='many-persons', fn='many', args=dict(m=150, k=2)), dict(name='many-nodes', fn='many', args=dict(m=3, k=61)),
            dict(name='3pl-many', fn='many3', args=dict(n=3, m=80, k=1)), dict(name='3pl-many-items', fn='many3', args=dict(n=9, m=3, k=1))]
    if tier == 'thorough':
        out.append(dict(name='3pl-3', fn='three', args=dict(n=3, m=2), max_paths=2000))
        out.append(dict(name='pattern-3', fn='pattern', args=dict(n=3, m=3), max_paths=2000))
    return out


def _items(h, n):
    return h.reals('b', n, -12, 12), h.reals('a', n, 0.01, 10)


def two(h, g, dt='int64'):
    f = h.private('girth.unidimensional.dichotomous.partial_integrals', '_compute_partial_integral')
    th = h.reals('theta', 2, -12, 12)
    b, a = h.real('b', -12, 12), h.real('a', 0.01, 10)
    R = [h.choose('r%d' % i, (0, 1)) for i in range(3)]
    M = [h.choose('m%d' % i, (False, True)) for i in range(3)]
    bt = h.copy(th)
    out = f(th, b, a, h.arr(R, dt), h.arr(M, bool))
    h.check('shape', h.shape(out) == (3, 2))
    O, Th = h.lst(out), h.lst(th)
    for i in range(3):
        for k in range(2):
            h.eq('likelihood', O[i][k], 1 if M[i] else like2(h, R[i], Th[k], b, a))
    h.unchanged('abilities', bt, th)
    h.reach()


def many(h, g, m, k):
    """many persons or abilities"""
    f = h.private('girth.unidimensional.dichotomous.partial_integrals', '_compute_partial_integral')
    T = [h.real('t%d' % q, -12, 12) if q % 20 == 0 else -6 + 0.25 * q for q in range(k)]
    b, a = h.real('b', -12, 12), h.real('a', 0.01, 10)
    R = [(j * j + j // 5) % 3 % 2 for j in range(m)]
    M = [j % 11 == 4 for j in range(m)]
    O = h.lst(f(h.arr(T), b, a, h.arr([0 if q else r for r, q in zip(R, M)], int), h.arr(M, bool)))
    for j in range(m):
        for q in range(k):
            h.eq('likelihood', O[j][q], 1 if M[j] else like2(h, R[j], T[q], b, a))
    h.reach()


def many3(h, g, n, m, k):
    f = h.private('girth.unidimensional.dichotomous.partial_integrals', '_compute_partial_integral_3pl')
    th = h.reals('theta', k, -12, 12)
    b, a = h.reals('b', n, -3, 3), h.reals('a', n, 0.2, 2)
    c = h.reals('c', n, 0, 0.5)
    X = [[(i * j + j // 2 + i) % 4 // 2 if (i + 2 * j) % 9 else INVALID for j in range(m)] for i in range(n)]
    S = [[{0: 1.0, 1: -1.0}.get(v, 0.0) for v in r] for r in X]
    const = h.lst(f(h.arr([0.0, 1.0]), h.arr([0.0]), h.arr([1.0]), h.arr([0.0]), h.arr([[0.0, 0.0]])))[0][0]
    out = f(th, b, a, c, h.arr(S))
    O = [[h.sc(v)] for v in h.lst(out)] if h.shape(out) == (m,) else h.lst(out)
    T, B, A, C = h.lst(th), h.lst(b), h.lst(a), h.lst(c)
    for j in range(m):
        for q in range(k):
            scale = prod(const if X[i][j] == INVALID else 1 for i in range(n))
            h.eq('pattern', O[j][q], prod(like2(h, X[i][j], T[q], B[i], A[i], C[i]) for i in range(n)) * scale)
    h.reach()


def complement(h, g):
    f = h.private('girth.unidimensional.dichotomous.partial_integrals', '_compute_partial_integral')
    th = h.reals('theta', 2, -12, 12)
    b, a = h.real('b', -12, 12), h.real('a', -8, 8)
    O = h.lst(f(th, b, a, h.arr([0, 1], int), h.arr([False, False], bool)))
    for k in range(2):
        h.eq('adds to one', O[0][k] + O[1][k], 1.0)
        h.check('positive', h.all(O[0][k] > 0, O[1][k] > 0))
    h.reach()


def pattern(h, g, n=2, m=2):
    """product over items of a whole pattern, as the estimators form it"""
    f = h.private('girth.unidimensional.dichotomous.partial_integrals', '_compute_partial_integral')
    th = h.reals('theta', 1, -12, 12)
    b, a = _items(h, n)
    X = [[h.choose('x%d_%d' % (i, j), (0, 1, INVALID)) for j in range(m)] for i in range(n)]
    tot = h.arr([[1.0]] * m)
    for i in range(n):
        mask = [v == INVALID for v in X[i]]
        tot = tot * f(th, b[i], a[i], h.arr([0 if v == INVALID else v for v in X[i]], int), h.arr(mask, bool))
    O, B, A = h.lst(tot), h.lst(b), h.lst(a)
    t = h.lst(th)[0]
    for j in range(m):
        h.eq('pattern', O[j][0], prod(like2(h, X[i][j], t, B[i], A[i]) for i in range(n)))
    h.reach()


def three(h, g, n, m):
    """observed answers: the 3PL factor; a missing answer: one positive constant (the code uses 1/2),
    the same whatever the item parameters and the ability"""
    f = h.private('girth.unidimensional.dichotomous.partial_integrals', '_compute_partial_integral_3pl')
    th = h.reals('theta', 2, -12, 12)
    b, a = _items(h, n)
    c = h.reals('c', n, 0, 0.95)
    X = [[h.choose('x%d_%d' % (i, j), (0, 1, INVALID)) for j in range(m)] for i in range(n)]
    S = [[{0: 1.0, 1: -1.0}.get(v, 0.0) for v in r] for r in X]
    const = h.lst(f(h.arr([0.0, 1.0]), h.arr([0.0]), h.arr([1.0]), h.arr([0.0]), h.arr([[0.0, 0.0]])))[0][0]
    h.check('missing is a positive factor', const > 0)
    out = f(th, b, a, c, h.arr(S))
    h.check('shape', h.shape(out) == (m, 2))
    O, T, B, A, C = h.lst(out), h.lst(th), h.lst(b), h.lst(a), h.lst(c)
    for j in range(m):
        for k in range(2):
            scale = prod(const if X[i][j] == INVALID else 1 for i in range(n))
            want = prod(like2(h, X[i][j], T[k], B[i], A[i], C[i]) for i in range(n))
            h.eq('pattern', O[j][k], want * scale)
    h.reach()
