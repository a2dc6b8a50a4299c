"""Polytomous generator: every draw is a fresh uniform solver variable; the returned category of each
cell has to be the one whose cumulative model probability interval contains that draw, for all
parameters of every model; parameter validation is checked on symbolic difficulties."""
from .spec import grm, grm_slope, pcm, ggum

BOUNDS = '1-2 items x 1-2 persons, 2-3 thresholds (3 or 5 for unfolding), 1-2 factors; difficulty/ability in [-3,3], discrimination in [0.2,3] ([-2,2] several dimensions), draws in [0,1]; also fixed data of many persons, items or categories with one free draw'
ASSUMPTIONS = ['numpy default_rng(seed).uniform fills an array of the requested shape with independent draws in row order, determined by the seed',
               'draws within 1e-9 of a category boundary are left to rounding']


def configs(tier):
    out = []
    for model in ('grm', 'pcm', 'grm_md'):
        for nl in (2, 3):
            out.append(dict(name='%s-%d' % (model, nl), fn='draw', args=dict(model=model, nl=nl), max_paths=60))
        out.append(dict(name='%s-2items' % model, fn='draw', args=dict(model=model, nl=2, n=2), max_paths=60))
        out.append(dict(name='%s-2persons' % model, fn='draw', args=dict(model=model, nl=2, m=2), max_paths=60))
    out.append(dict(name='gum-3', fn='draw', args=dict(model='gum', nl=3), exp_den=2, max_paths=40))
    out.append(dict(name='gum-3-2', fn='draw', args=dict(model='gum', nl=3, n=2, m=1), exp_den=2, max_paths=40))
    out.append(dict(name='gum-5', fn='draw', args=dict(model='gum', nl=5), exp_den=2, max_paths=40))
    for model in ('grm', 'pcm', 'gum'):
        for a in ('scalar', 'size1', 'int'):
            out.append(dict(name='%s-%s' % (model, a), fn='draw', args=dict(model=model, nl=3, a=a, n=2), max_paths=40, exp_den=2))
    for model, nl in (('grm', 2), ('pcm', 2), ('grm_md', 2), ('gum', 3)):
        for w in ('b', 'a', 't', 'abt'):
            out.append(dict(name='%s-whole-%s' % (model, w), fn='draw', args=dict(model=model, nl=nl, whole=w), max_paths=40, exp_den=2))
        if model != 'grm_md':
            for a in ('scalar', 'size1'):
                out.append(dict(name='%s-whole-b-%s' % (model, a), fn='draw', args=dict(model=model, nl=nl, whole='b', a=a), max_paths=40, exp_den=2))
    out.append(dict(name='upper', fn='draw', args=dict(model='GRM', nl=2)))
    out.append(dict(name='list', fn='draw', args=dict(model='grm', nl=2, row=True)))
    out += [dict(name='order', fn='order'), dict(name='order3', fn='order', args=dict(nl=3, n=2)),
            dict(name='symmetry3', fn='symmetry', args=dict(nl=3)), dict(name='symmetry5', fn='symmetry', args=dict(nl=5)),
            dict(name='even', fn='even'), dict(name='single', fn='single'), dict(name='unknown', fn='unknown'), dict(name='seed', fn='seed')]
    for model, nl in (('grm', 11), ('pcm', 9), ('grm_md', 11), ('gum', 7)):
        out.append(dict(name='%s-many' % model, fn='many', args=dict(model=model, nl=nl, n=2, m=40), max_paths=40, exp_den=2))
        out.append(dict(name='%s-many-items' % model, fn='many', args=dict(model=model, nl=3, n=25, m=3), max_paths=40, exp_den=2))
    if tier == 'thorough':
        for model in ('grm', 'pcm', 'grm_md'):
            out.append(dict(name='%s-4' % model, fn='draw', args=dict(model=model, nl=4, n=2, m=2), max_paths=400))
        out.append(dict(name='gum-7', fn='draw', args=dict(model='gum', nl=7), exp_den=2, max_paths=40))
    return out


def _pars(h, model, nl, n, nf, whole=False):
    model = model.lower()
    B, spec = [], []
    for i in range(n):
        if whole:
            d = h.choose('d%d' % i, (-1, 0, 2))
            t = [-(nl // 2 - k) * (i + 1) for k in range(nl // 2)]
            B.append([d + v for v in t] + ([d] if nl % 2 else []) + [d - v for v in t[::-1]])
            if model == 'grm_md':
                B[i].reverse()
            spec.append((d, t) if model == 'gum' else B[i])
            continue
        if model == 'gum':
            k = (nl - 1) // 2
            t = [h.real('t%d_%d' % (i, j), -5, 5) for j in range(k)]
            d = h.real('d%d' % i, -5, 5)
            B.append([d + v for v in t] + [d] + [d - v for v in t[::-1]])
            spec.append((d, t))
        else:
            b = [h.real('b%d_%d' % (i, j), -7, 7) for j in range(nl)]
            for u, v in zip(b, b[1:]):
                if model == 'grm':
                    h.assume(u < v)
                elif model == 'grm_md':
                    h.assume(u > v)
            B.append(b)
            spec.append(b)
    return B, spec


def _probs(h, model, th, par, a):
    model = model.lower()
    if model == 'grm':
        return grm(h, th, par, a)
    if model == 'pcm':
        return pcm(h, th, par, a)
    if model == 'gum':
        return ggum(h, th, par[0], par[1], a)
    return grm_slope(h, sum(x * t for x, t in zip(a, th)), par)


def draw(h, g, model, nl, n=1, m=1, a='array', row=False, whole=''):
    nf = 2
    md = model == 'grm_md'
    B, par = _pars(h, model, nl, n, nf, 'b' in whole)
    shape = (nf, m) if md else m
    th = h.cats('theta', shape, (-1, 2), 'int64') if 't' in whole else h.reals('theta', shape, -7, 7)
    if md:
        A = h.cats('a', (n, nf), (-1, 2), 'int64') if 'a' in whole else h.reals('a', (n, nf), -5, 5)
        al = h.lst(A)
    elif a == 'array':
        A = h.cats('a', n, (1, 3), 'int64') if 'a' in whole else h.reals('a', n, 0.05, 5)
        al = h.lst(A)
    elif a == 'int':
        A, al = 2, [2] * n
    else:
        v = h.real('a', 0.05, 5)
        A = v if a == 'scalar' else h.arr([v])
        al = [v] * n
    D = h.arr(B[0] if row else B, 'int64') if 'b' in whole else h.arr(B[0] if row else B)
    before = [h.copy(D), h.copy(th)]
    out = g.create_synthetic_irt_polytomous(D, A, th, model=model, seed=9)
    h.check('shape', h.shape(out) == (n, m))
    h.check('integers', out.dtype.kind == 'i')
    h.unchanged('difficulty', before[0], D)
    h.unchanged('abilities', before[1], th)
    h.check('one seeded generator', len(h.w.rngs) == 1 and h.w.rngs[0].seed == 9)
    O, T = h.lst(out), h.lst(th)
    for i in range(n):
        for j in range(m):
            u = h.ctx.real('rng0_u#%d' % (i * m + j), 0, 1)
            t = [r[j] for r in T] if md else T[j]
            P = _probs(h, model, t, par[i], al[i])
            o = O[i][j]
            cum = 0
            ok = False
            for k, p in enumerate(P):
                lo = -1 if k == 0 else cum - 1e-9
                cum = cum + p
                hi = 2 if k == len(P) - 1 else cum + 1e-9
                ok = h.any(ok, h.all(o == k + 1, u > lo, u <= hi))
            h.check('category', ok)
    h.reach()


def many(h, g, model, nl, n, m):
    """many items, persons and categories: fixed draws and parameters, except for one draw"""
    nf, md = 2, model == 'grm_md'
    B, par = [], []
    for i in range(n):
        d = (i % 5 - 2) * 0.5
        t = [-(nl // 2 - k) * (0.25 + 0.0625 * (i % 3)) for k in range(nl // 2)]
        b = [d + v for v in t] + ([d] if nl % 2 else []) + [d - v for v in t[::-1]]
        B.append(b[::-1] if md else b)
        par.append((d, t) if model == 'gum' else B[i])
    free = (n // 2) * m + m // 2 + 1
    draw = h.real('u', 0, 1)
    h.w.coarse_at = {free: draw}
    th = [[((3 * j + 5 * f) % 13 - 6) * 0.375 for j in range(m)] for f in range(nf if md else 1)]
    A = [[0.5 + 0.25 * ((i + f) % 4) for f in range(nf)] if md else 0.5 + 0.25 * (i % 5) for i in range(n)]
    h.w.coarse = 0
    out = g.create_synthetic_irt_polytomous(h.arr(B), h.arr(A), h.arr(th if md else th[0]), model=model, seed=9)
    h.w.coarse = None
    h.check('shape', h.shape(out) == (n, m))
    O = h.lst(out)
    for i in range(n):
        for j in range(m):
            k = i * m + j + 1
            u = draw if k == free else (0.375, 0.625, 0.25, 0.5, 0.75)[k % 5]
            P = _probs(h, model, [r[j] for r in th] if md else th[0][j], par[i], A[i])
            cum, ok = 0, False
            for k, p in enumerate(P):
                lo = -1 if k == 0 else cum - 1e-9
                cum = cum + p
                ok = h.any(ok, h.all(O[i][j] == k + 1, u > lo, u <= (2 if k == len(P) - 1 else cum + 1e-9)))
            h.check('category', ok)
    h.reach()


def order(h, g, nl=2, n=1):
    """graded: accepted exactly when every row ascends strictly"""
    B = [[h.real('b%d_%d' % (i, j), -7, 7) for j in range(nl)] for i in range(n)]
    asc = h.all(*[u < v for b in B for u, v in zip(b, b[1:])])
    st, _ = h.outcome(g.create_synthetic_irt_polytomous, h.arr(B), 1.0, h.arr([0.0]), model='grm', seed=1)
    h.check('ascending accepted, others rejected', h.any(h.all(asc, st == 'ok'), h.all(h.neg(asc), st == 'raise')))
    h.reach()


def symmetry(h, g, nl):
    """unfolding: accepted exactly when skew-symmetric about the centre (up to rounding)"""
    B = [h.real('b%d' % j, -7, 7) for j in range(nl)]
    c = B[nl // 2]
    gap = 0
    for j in range(nl // 2):
        gap = h.max(gap, h.abs((B[j] - c) + (B[nl - 1 - j] - c)))
    st, _ = h.outcome(g.create_synthetic_irt_polytomous, h.arr([B]), 1.0, h.arr([0.0]), model='gum', seed=1)
    h.check('asymmetric rejected', h.any(gap <= 1e-6, st == 'raise'))
    h.check('symmetric accepted', h.any(gap > 1e-9, st == 'ok'))
    h.reach()


def even(h, g):
    t, d = h.real('t', -5, 5), h.real('d', -5, 5)
    st, _ = h.outcome(g.create_synthetic_irt_polytomous, h.arr([[d - t, d + t]]), 1.0, h.arr([0.0]), model='gum')
    h.check('even number of unfolding difficulties is rejected', st == 'raise')
    s = h.real('s', -5, 5)
    st, _ = h.outcome(g.create_synthetic_irt_polytomous, h.arr([[d - t, d - s, d + s, d + t]]), 1.0, h.arr([0.0]), model='gum')
    h.check('even number of unfolding difficulties is rejected', st == 'raise')
    h.reach()


def single(h, g):
    for model in ('grm', 'pcm', 'gum', 'grm_md'):
        st, _ = h.outcome(g.create_synthetic_irt_polytomous, h.reals('b', (2, 1)), 1.0, h.arr([0.0]), model=model)
        h.check('a single threshold is rejected', st == 'raise')
    h.reach()


def unknown(h, g):
    st, _ = h.outcome(g.create_synthetic_irt_polytomous, h.arr([[0.0, 1.0]]), 1.0, h.arr([0.0]), model='nominal')
    h.check('unknown model is rejected', st == 'raise')
    h.reach()


def seed(h, g):
    for s in (None, 0, 5):
        g.create_synthetic_irt_polytomous(h.arr([[0.0, 1.0]]), 1.0, h.arr([0.5]), seed=s)
        h.check('seed', h.w.rngs[-1].seed == s)
    r = g.np.random.default_rng(11)
    n = len(h.w.rngs)
    g.create_synthetic_irt_polytomous(h.arr([[0.0, 1.0]]), 1.0, h.arr([0.5]), seed=r)
    h.check('generator passed through', len(h.w.rngs) == n)
    h.reach()
