"""Kernel sign, right/wrong counts, analytic starting difficulty.

Every cell is an arbitrary member of the alphabet (forked/merged), discrimination and supplied
log odds are real variables; the outputs are compared with their definition per cell/item."""
from .spec import INVALID

BOUNDS = 'datasets 2x2, 1x3, 2x300 and 70x6 (cells in {0,1,missing,other}), discrimination in [0.1,4] scalar or per item, log odds in [-5,5]'


def configs(tier):
    out = []
    for dt in ('int64', 'float64'):
        out.append(dict(name='sign-' + dt, fn='sign', args=dict(dt=dt), max_paths=300))
        out.append(dict(name='counts-' + dt, fn='counts', args=dict(dt=dt), max_paths=300))
    for kind in ('scalar', 'item', 'default'):
        out.append(dict(name='approx-' + kind, fn='approx', args=dict(kind=kind, shape=(2, 2)), max_paths=300))
    out.append(dict(name='approx-3p', fn='approx', args=dict(kind='item', shape=(1, 4)), max_paths=300))
    out.append(dict(name='approx-given-scalar', fn='given', args=dict(kind='scalar')))
    out.append(dict(name='approx-given-item', fn='given', args=dict(kind='item')))
    for k in ('one-scalar', 'one-item'):
        out.append(dict(name='approx-given-' + k, fn='given', args=dict(kind=k)))
    for dt in ('int64', 'int8', 'float64', 'uint8'):
        out.append(dict(name='many-' + dt, fn='many', args=dict(dt=dt)))
    out.append(dict(name='many-items', fn='many', args=dict(dt='int64', n=70, m=6)))
    out.append(dict(name='bool', fn='boolean', max_paths=80))
    if tier == 'thorough':
        out.append(dict(name='sign-2x3', fn='sign', args=dict(dt='int64', shape=(2, 3)), max_paths=5000))
        out.append(dict(name='counts-2x3', fn='counts', args=dict(dt='int64', shape=(2, 3)), max_paths=5000))
        out.append(dict(name='approx-2x3', fn='approx', args=dict(kind='item', shape=(2, 3)), max_paths=5000))
    return out


def sign(h, g, dt, shape=(2, 2)):
    x = h.cats('x', shape, (0, 1, INVALID, 4), dt)
    before = h.copy(x)
    out = g.convert_responses_to_kernel_sign(x)
    X, O = h.lst(x), h.lst(out)
    h.check('shape', h.shape(out) == shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            want = h.ite(X[i][j] == 1, -1.0, h.ite(X[i][j] == 0, 1.0, 0.0))
            h.eq('sign %d,%d' % (i, j), O[i][j], want)
    h.unchanged('input', before, x)
    h.reach()


def boolean(h, g):
    c = [h.choose('b%d' % i, (False, True)) for i in range(4)]
    x = h.arr([c[:2], c[2:]], bool)
    O = h.lst(g.convert_responses_to_kernel_sign(x))
    f, t = g.get_true_false_counts(x)
    for i in range(2):
        for j in range(2):
            h.eq('sign', O[i][j], -1.0 if c[2 * i + j] else 1.0)
        h.eq('true', h.lst(t)[i], sum(c[2 * i:2 * i + 2]))
        h.eq('false', h.lst(f)[i], 2 - sum(c[2 * i:2 * i + 2]))
    h.reach()


def counts(h, g, dt, shape=(2, 2)):
    x = h.cats('x', shape, (0, 1, INVALID, 4), dt)
    f, t = g.get_true_false_counts(x)
    X, F, Tr = h.lst(x), h.lst(f), h.lst(t)
    h.check('per item', h.shape(f) == (shape[0],) and h.shape(t) == (shape[0],))
    for i in range(shape[0]):
        h.eq('false %d' % i, F[i], sum(h.ite(v == 0, 1, 0) for v in X[i]))
        h.eq('true %d' % i, Tr[i], sum(h.ite(v == 1, 1, 0) for v in X[i]))
    h.reach()


def many(h, g, dt, n=2, m=300):
    """many persons (or items) in every storage type, some free cells"""
    X = [[1 if (i + j * j) % 7 < 5 else 0 for j in range(m)] for i in range(n)]
    for k, (i, j) in enumerate(((0, 0), (n - 1, m - 1), (n // 2, m // 2))):
        X[i][j] = h.cat('x%d' % k, (0, 1) if dt in ('int8', 'uint8') else (0, 1, INVALID, 4))
    a = h.reals('a', n, 0.01, 30)
    x = h.arr(X, dt)
    O = h.lst(g.convert_responses_to_kernel_sign(x))
    f, t = g.get_true_false_counts(x)
    F, Tr, A = h.lst(f), h.lst(t), h.lst(a)
    for i in range(n):
        for j in range(m):
            h.eq('sign', O[i][j], h.ite(X[i][j] == 1, -1.0, h.ite(X[i][j] == 0, 1.0, 0.0)))
        h.eq('false', F[i], sum(h.ite(v == 0, 1, 0) for v in X[i]))
        h.eq('true', Tr[i], sum(h.ite(v == 1, 1, 0) for v in X[i]))
    if dt == 'int64':
        D = h.lst(g.mml_approx(x, a))
        for i in range(n):
            odds = sum(h.ite(v == 0, 1, 0) for v in X[i]) / sum(h.ite(v == 1, 1, 0) for v in X[i])
            h.eq('difficulty', D[i], _want(h, A[i], h.log(odds)))
    h.reach()


def _disc(h, kind, n):
    if kind == 'default':
        return None, [1.0] * n
    if kind == 'scalar':
        a = h.real('a', 0.01, 30)
        return a, [a] * n
    a = h.reals('a', n, 0.01, 30)
    return a, h.lst(a)


def _want(h, a, s):
    return h.sqrt(1 + a * a / 3) * s / a


def approx(h, g, kind, shape):
    n, m = shape
    X = [[h.choose('x%d_%d' % (i, j), (0, 1, INVALID)) for j in range(m)] for i in range(n)]
    for row in X:
        h.assume(0 in row and 1 in row)
    a, al = _disc(h, kind, n)
    x = h.arr(X, int)
    O = h.lst(g.mml_approx(x) if a is None else g.mml_approx(x, a))
    for i in range(n):
        odds = X[i].count(0) / X[i].count(1)
        h.eq('difficulty %d' % i, O[i], _want(h, al[i], h.log(odds)))
    h.reach()


def given(h, g, kind):
    a, al = _disc(h, kind.split('-')[-1], 2)
    one = kind.startswith('one')
    s = h.real('s', -20, 20) if one else h.reals('s', 2, -20, 20)
    x = h.arr([[0, 1, 1, INVALID], [1, 0, 0, 0]], int)
    O = h.lst(g.mml_approx(x, a, s))
    if kind == 'one-scalar':
        O = [O, O]
    for i, v in enumerate([s, s] if one else h.lst(s)):
        h.eq('difficulty %d' % i, O[i], _want(h, al[i], v))
    h.reach()
