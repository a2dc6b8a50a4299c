"""Dichotomous generator: every draw is a fresh uniform solver variable; the answer of each cell is
compared with (u <= model probability) for all parameters, in every parameter layout."""
from .spec import p3

BOUNDS = '1-3 items x 1-3 persons, 1-3 factors (also 40x2, 2x70, 7 factors); difficulty/ability in [-4,4], discrimination in [-3,3], guessing in [0,0.5], draws in [0,1]'
ASSUMPTIONS = ['numpy default_rng(seed).uniform fills an array of the requested shape with independent draws in row order, determined by the seed']


def configs(tier):
    out = []
    for a in ('array', 'scalar', 'size1', 'int'):
        for c in ('default', 'scalar', 'array', 'size1'):
            out.append(dict(name='a-%s-c-%s' % (a, c), fn='uni', args=dict(a=a, c=c)))
    for c in ('default', 'scalar', 'array'):
        for dt in ('int64', 'int8', 'float32'):
            out.append(dict(name='difficulty-%s-c-%s' % (dt, c), fn='uni', args=dict(a='scalar', c=c, dt=dt)))
    for nf in (1, 2, 3):
        for c in ('default', 'scalar', 'array'):
            out.append(dict(name='md%d-c-%s' % (nf, c), fn='multi', args=dict(nf=nf, c=c)))
    for a in ('array', 'scalar'):
        for dt in ('int64', 'int8'):
            out.append(dict(name='whole-%s-%s' % (a, dt), fn='uni', args=dict(a=a, c='scalar', whole=dt)))
            out.append(dict(name='whole-%s-%s-difficulty' % (a, dt), fn='uni', args=dict(a=a, c='array', dt=dt, whole=dt)))
    for w in 'abt':
        out.append(dict(name='md-whole-' + w, fn='multi', args=dict(nf=2, c='scalar', whole=w)))
    out += [dict(name='many-items', fn='uni', args=dict(a='array', c='array', n=40, m=2)), dict(name='many-persons', fn='uni', args=dict(a='array', c='array', n=2, m=70)),
            dict(name='md-many-items', fn='multi', args=dict(nf=2, c='array', n=40, m=2)), dict(name='md-many-persons', fn='multi', args=dict(nf=2, c='array', n=2, m=70)),
            dict(name='md-many-factors', fn='multi', args=dict(nf=7, c='scalar', n=2, m=2))]
    out += [dict(name='seed', fn='seed'), dict(name='boundary', fn='boundary'), dict(name='bad', fn='bad')]
    if tier == 'thorough':
        out += [dict(name='wide', fn='uni', args=dict(a='array', c='array', n=4, m=4), max_paths=20),
                dict(name='md-wide', fn='multi', args=dict(nf=4, c='array', n=4, m=3), max_paths=20)]
    return out


def _guess(h, c, n):
    if c == 'default':
        return {}, [0] * n
    if c == 'scalar':
        v = h.real('c', 0, 0.95)
        return dict(guessing=v), [v] * n
    if c == 'size1':
        v = h.real('c', 0, 0.95)
        return dict(guessing=h.arr([v])), [v] * n
    v = h.reals('c', n, 0, 0.95)
    return dict(guessing=v), h.lst(v)



def uni(h, g, a, c, dt='float64', n=2, m=2, whole=''):
    th = h.cats('theta', m, (-2, 1), whole) if whole else h.reals('theta', m, -9, 9)
    if dt == 'float64':
        b = h.reals('b', n, -9, 9)
    elif dt == 'float32':
        b = h.arr([0.5, -1.25, 2.0, 0.0][:n], dt)
    else:
        b = h.cats('b', n, (-2, 0, 1), dt)
    if a == 'array':
        A = h.cats('a', n, (1, 2), whole) if whole else h.reals('a', n, -8, 8)
        al = h.lst(A)
    elif a == 'int':
        A = 2
        al = [2] * n
    else:
        v = h.real('a', -8, 8)
        A = v if a == 'scalar' else h.arr([v])
        al = [v] * n
    kw, cl = _guess(h, c, n)
    before = [h.copy(v) for v in (th, b)]
    out = g.create_synthetic_irt_dichotomous(b, A, th, seed=7, **kw)
    h.check('shape', h.shape(out) == (n, m))
    h.check('integers', out.dtype.kind == 'i')
    _compare(h, out, n, m, lambda i, j: p3(h, h.lst(th)[j], h.lst(b)[i], al[i], cl[i]))
    h.unchanged('abilities', before[0], th)
    h.unchanged('difficulty', before[1], b)
    h.reach()


def _compare(h, out, n, m, prob):
    h.check('one generator', len(h.w.rngs) == 1)
    h.check('seeded', h.w.rngs[0].seed == 7)
    O = h.lst(out)
    for i in range(n):
        for j in range(m):
            # draws are made in row order, one per cell
            u = h.ctx.real('rng0_u#%d' % (i * m + j), 0, 1)
            p = prob(i, j)
            o = O[i][j]
            # answers of a draw exactly on the boundary are decided by rounding
            h.check('answer', h.any(h.all(u <= p + 1e-9, o == 1), h.all(u > p - 1e-9, o == 0)))


def multi(h, g, nf, c, n=2, m=2, whole=''):
    part = lambda k, name, shape, lo, hi: h.cats(name, shape, (-1, 2), 'int64') if k in whole else h.reals(name, shape, lo, hi)
    th = part('t', 'theta', (nf, m), -9, 9)
    b = part('b', 'b', n, -9, 9)
    A = part('a', 'a', (n, nf), -8, 8)
    kw, cl = _guess(h, c, n)
    out = g.create_synthetic_irt_dichotomous(b, A, th, seed=7, **kw)
    h.check('shape', h.shape(out) == (n, m))
    AA, T, B = h.lst(A), h.lst(th), h.lst(b)

    def prob(i, j):
        return cl[i] + (1 - cl[i]) * h.expit(sum(AA[i][q] * T[q][j] for q in range(nf)) + B[i])
    _compare(h, out, n, m, prob)
    h.reach()


def boundary(h, g):
    """certain answers: with guessing one every draw is correct"""
    th = h.reals('theta', 2, -9, 9)
    b = h.reals('b', 2, -9, 9)
    out = h.lst(g.create_synthetic_irt_dichotomous(b, 1.0, th, guessing=1.0, seed=3))
    for r in out:
        for v in r:
            h.check('certain', v == 1)
    h.reach()


def seed(h, g):
    """the seed reaches the generator unchanged; a generator is used as it is"""
    th, b = h.reals('theta', 2, -9, 9), h.reals('b', 1, -9, 9)
    for s in (None, 0, 5, 2 ** 40):
        g.create_synthetic_irt_dichotomous(b, 1.0, th, seed=s)
        h.check('seed', h.w.rngs[-1].seed == s)
    r = g.np.random.default_rng(11)
    n = len(h.w.rngs)
    g.create_synthetic_irt_dichotomous(b, 1.0, th, seed=r)
    h.check('generator passed through', len(h.w.rngs) == n and len(r.calls) >= 1)
    h.reach()


def bad(h, g):
    th, b = h.reals('theta', 2, -9, 9), h.reals('b', 2, -9, 9)
    st, _ = h.outcome(g.create_synthetic_irt_dichotomous, b, h.reals('a', (2, 1, 2), 0, 1), th)
    h.check('three dimensional discrimination is refused', st == 'raise')
    h.reach()
