"""Mode abilities: the objective handed to the (stubbed) search is evaluated at two arbitrary points of
its range and has to order them as the person's own log posterior / log likelihood does, for all item
parameters, patterns with missing cells and priors (an uninterpreted positive function); the returned
ability is the search result of that person."""
from .spec import INVALID, like2, grm_slope
from .c14 import part

BOUNDS = 'dichotomous: 1-3 items x 2-3 persons, every 0/1/missing pattern; several dimensions: 2-3 factors, 2 items of 2-3 categories, 3-4 persons; difficulty in [-3,3], discrimination in [0.2,3] (also negative and scalar), guessing in [0.02,0.4]; also fixed data of 70-130 persons or 9-16 items'
ASSUMPTIONS = ['the optimiser returns an arbitrary point of its range; that it is the optimum of the objective it was given is the optimiser\'s contract',
               'several dimensions: every item shows all of its categories in the dataset']


def configs(tier):
    out = []
    for a in ('array', 'scalar', 'size1', 'int'):
        out.append(dict(name='map-' + a, fn='mapd', args=dict(a=a, n=2, m=2, fixed=1)))
    out.append(dict(name='map-1x3', fn='mapd', args=dict(a='array', n=1, m=3)))
    out.append(dict(name='map-2x2', fn='mapd', args=dict(a='array', n=2, m=2), max_paths=90))
    out.append(dict(name='map-3x1', fn='mapd', args=dict(a='array', n=3, m=1), max_paths=90))
    out.append(dict(name='map-default', fn='mapd', args=dict(a='array', n=2, m=1, default=True)))
    out.append(dict(name='map-3pl', fn='mapd', args=dict(a='array', n=2, m=2, three=True), max_paths=90))
    out.append(dict(name='map-3pl-3', fn='mapd', args=dict(a='array', n=3, m=1, three=True), max_paths=90))
    for three in (False, True):
        s = '-3pl' if three else ''
        for ne in ('nan', 'pos', 'neg', 'zero'):
            out.append(dict(name='mle%s-%s' % (s, ne), fn='mle', args=dict(n=2, m=2, three=three, ne=ne), max_paths=90))
        out.append(dict(name='mle%s-3' % s, fn='mle', args=dict(n=3, m=1, three=three, ne='pos'), max_paths=90))
        out.append(dict(name='mle%s-3persons' % s, fn='mle', args=dict(n=2, m=3, three=three, ne='pos', fixed=1), max_paths=90))
    for a, w in (('array', 'b'), ('scalar', 'b'), ('size1', 'b'), ('array', 'a'), ('array', 'ab')):
        out.append(dict(name='map-whole-%s-%s' % (w, a), fn='mapd', args=dict(a=a, n=2, m=1, whole=w)))
        out.append(dict(name='mle-whole-%s-%s' % (w, a), fn='mle', args=dict(a=a, n=2, m=1, whole=w, three=False, ne='nan')))
    for w in ('b', 'a', 'c', 'abc'):
        out.append(dict(name='map-3pl-whole-' + w, fn='mapd', args=dict(a='array', n=2, m=1, three=True, whole=w)))
        out.append(dict(name='mle-3pl-whole-' + w, fn='mle', args=dict(n=2, m=1, three=True, ne='pos', whole=w)))
    out.append(dict(name='md-whole-d', fn='multi', args=dict(cats=(2, 2), nf=2, whole='d')))
    out.append(dict(name='md-whole-a', fn='multi', args=dict(cats=(2, 2), nf=2, whole='a')))
    out.append(dict(name='md-2x2', fn='multi', args=dict(cats=(2, 2), nf=2)))
    out.append(dict(name='md-2x3', fn='multi', args=dict(cats=(2, 3), nf=2)))
    out.append(dict(name='md-3x2', fn='multi', args=dict(cats=(3, 2), nf=2)))
    out.append(dict(name='md-f3', fn='multi', args=dict(cats=(2, 2), nf=3)))
    out.append(dict(name='md-one-factor', fn='onefactor'))
    for three in (False, True):
        s = '-3pl' if three else ''
        out += [dict(name='map%s-many-persons' % s, fn='mapd', args=dict(a='array', n=2, m=70, fixed=70, three=three)), dict(name='map%s-many-items' % s, fn='mapd', args=dict(a='array', n=16, m=2, fixed=2, three=three)),
                dict(name='mle%s-many-persons' % s, fn='mle', args=dict(n=3, m=70, fixed=70, three=three, ne='pos')), dict(name='mle%s-many-items' % s, fn='mle', args=dict(n=16, m=2, fixed=2, three=three, ne='pos'))]
    if tier == 'thorough':
        out.append(dict(name='map-3x2', fn='mapd', args=dict(a='array', n=3, m=2), max_paths=729))
        out.append(dict(name='mle-3x2', fn='mle', args=dict(n=3, m=2, three=False, ne='pos'), max_paths=729))
        out.append(dict(name='mle-3pl-3x2', fn='mle', args=dict(n=3, m=2, three=True, ne='pos'), max_paths=729))
    return out


def _setup(h, a, n, m, three, fixed=0, whole=''):
    b = part(h, whole, 'b', 'b', n, -7, 7)
    if a == 'array':
        A = part(h, whole, 'a', 'a', n, 0.05, 6)
        al = h.lst(A)
    elif a == 'int':
        A, al = 2, [2] * n
    else:
        v = h.real('a', 0.05, 6)
        A = v if a == 'scalar' else h.arr([v])
        al = [v] * n
    c = part(h, whole, 'c', 'c', n, 0.02, 0.9) if three else None
    X = [[((INVALID if (i + 3 * j) % 11 == 7 else (i * i + i * j + j // 2) % 5 % 2) if m > 3 or n > 3 else i % 2) if j < fixed else h.choose('x%d_%d' % (i, j), (0, 1, INVALID)) for j in range(m)] for i in range(n)]
    return b, A, al, c, X


def _person(h, out, j):
    """the search that produced ability j"""
    r = [r for r in h.w.records if r.result is not None and _is(h, r.result, out)]
    h.check('ability is the result of a search', len(r) > 0)
    return r[0] if r else None


def _is(h, a, b):
    if hasattr(a, 'd') or hasattr(b, 'd'):
        return hasattr(a, 'd') and hasattr(b, 'd') and a.key == b.key
    return a == b


def _like(h, X, j, th, B, A, C):
    return sum(h.log(like2(h, X[i][j], th, B[i], A[i], C[i])) for i in range(len(X)) if X[i][j] != INVALID)


def mapd(h, g, a, n, m, three=False, fixed=0, default=False, whole=''):
    b, A, al, c, X = _setup(h, a, n, m, three, fixed, whole)
    data = h.arr(X, int)
    before = [h.copy(data), h.copy(b)]
    f = h.uf('prior')
    kw = {} if default else dict(options={'distribution': f})
    if default:
        f = g.default_options()['distribution']
    fn = g.mod('girth').ability_3pl_map if three else g.ability_map
    out = fn(data, b, A, c, **kw) if three else fn(data, b, A, **kw)
    h.check('one ability per person', h.shape(out) == (m,))
    O, B, C = h.lst(out), h.lst(b), h.lst(c) if three else [0] * n
    for j in range(m):
        r = _person(h, O[j], j)
        if r is None:
            continue
        h.check('search range', (r.lo, r.hi) == (-6, 6))
        h.same_objective('posterior of person', r, lambda e: -(_like(h, X, j, e.x, B, al, C) + h.log(h.sc(f(e.x)))))
    h.check('one search per person', len(h.w.records) == m)
    h.unchanged('data', before[0], data)
    h.unchanged('difficulty', before[1], b)
    h.reach()


def mle(h, g, n, m, three, ne, fixed=0, whole='', a='array'):
    b, A, al, c, X = _setup(h, a, n, m, three, fixed, whole)
    data = h.arr(X, int)
    before = [h.copy(data), h.copy(b)]
    v = dict(nan=float('nan'), pos=h.real('ne', 0.5, 10), neg=-h.real('ne', 0.5, 10), zero=0)[ne]
    kw = {} if ne == 'nan' else dict(no_estimate=v)
    fn = g.mod('girth').ability_3pl_mle if three else g.ability_mle
    out = fn(data, b, A, c, **kw) if three else fn(data, b, A, **kw)
    h.check('one ability per person', h.shape(out) == (m,))
    O, B, C = h.lst(out), h.lst(b), h.lst(c) if three else [0] * n
    for j in range(m):
        obs = set(X[i][j] for i in range(n)) - {INVALID}
        if len(obs) == 2:
            r = _person(h, O[j], j)
            if r is None:
                continue
            h.check('search range', (r.lo, r.hi) == (-6, 6))
            h.same_objective('likelihood of person', r, lambda e: -_like(h, X, j, e.x, B, al, C))
        elif ne == 'nan':
            h.eq('no estimate', O[j], float('nan'))
        else:
            h.eq('no estimate', O[j], -h.abs(v) if obs == {0} else h.abs(v))
    h.unchanged('data', before[0], data)
    h.unchanged('difficulty', before[1], b)
    h.reach()


def multi(h, g, cats, nf, whole=''):
    f = h.uf('prior')
    n, top = len(cats), max(cats)
    m = top + 1
    X = [[min(j, c - 1) for j in range(top)] for c in cats]
    for i, c in enumerate(cats):
        X[i].append(h.choose('x%d' % i, tuple(range(c)) + (INVALID,)))
    D = []
    for i, c in enumerate(cats):
        d = [h.choose('d%d_%d' % (i, k), (-1, 2)) if 'd' in whole else h.real('d%d_%d' % (i, k), -7, 7) for k in range(c - 1)]
        for u, v in zip(d, d[1:]):
            h.assume(u > v + 0.05)
        D.append(d)
    A = [[1 + i - 2 * q if 'a' in whole else h.real('a%d_%d' % (i, q), -5, 5) for q in range(nf)] for i in range(n)]
    diff, disc = h.arr(D, 'int64') if 'd' in whole else h.arr([d + [float('nan')] * (top - 1 - len(d)) for d in D]), h.arr(A, 'int64') if 'a' in whole else h.arr(A)
    data = h.arr(X, int)
    before = [h.copy(data), h.copy(diff), h.copy(disc)]
    out = g.multidimensional_ability_map(data, diff, disc, {'distribution': f})
    h.check('factors by persons', h.shape(out) == (nf, m))
    O = h.lst(out)
    h.check('one search per person', len(h.w.records) == m)
    for j in range(m):
        r = h.rec(j)
        R = h.lst(r.result)
        for q in range(nf):
            h.eq('ability is the result of the search', O[q][j], R[q])
        h.check('search range', r.lo == [-4] * nf and r.hi == [4] * nf)

        def post(e):
            t = h.lst(e.x)
            s = 0
            for i in range(n):
                if X[i][j] != INVALID:
                    s = s + h.log(grm_slope(h, sum(A[i][q] * t[q] for q in range(nf)), D[i])[X[i][j]])
            for q in range(nf):
                s = s + h.log(h.sc(f(t[q])))
            return -s
        h.same_objective('posterior of person', r, post)
    for u, v in zip(before, (data, diff, disc)):
        h.unchanged('inputs', u, v)
    h.reach()


def onefactor(h, g):
    """a single factor is refused by the multidimensional methods"""
    for fn in (g.multidimensional_ability_map, g.multidimensional_ability_eap):
        st, _ = h.outcome(fn, h.arr([[0, 1], [1, 0]], int), h.reals('d', 2), h.reals('a', (2, 1)))
        h.check('refused', st == 'raise')
    h.reach()
