"""Generator against estimator: the category the generator returns for a symbolic uniform draw has to
be the one selected by the cumulative likelihoods the estimators' own tables assign to it, for all
parameters.  Both sides are the real code; no model formula of ours is involved."""

BOUNDS = '1 item, 1 person, 2-4 categories, 1-3 factors; parameters in [-3,3], discrimination in [0.2,3] ([-2,2] several dimensions), every draw in [0,1]; also 15 categories at fixed parameters with an arbitrary draw'
ASSUMPTIONS = ['draws within 1e-9 of a category boundary are left to rounding']


def configs(tier):
    out = [dict(name='2pl', fn='two'), dict(name='3pl', fn='three'), dict(name='2pl-md2', fn='md_two', args=dict(nf=2)),
           dict(name='2pl-md3', fn='md_two', args=dict(nf=3))]
    for nl in (2, 3) + ((4,) if tier == 'thorough' else ()):
        out += [dict(name='grm-%d' % nl, fn='graded', args=dict(nl=nl)),
                dict(name='grm-md-%d' % nl, fn='md_graded', args=dict(nl=nl)),
                dict(name='pcm-%d' % nl, fn='credit', args=dict(nl=nl))]
    out += [dict(name='grm-many', fn='graded', args=dict(nl=14, fixed=True)), dict(name='grm-md-many', fn='md_graded', args=dict(nl=14, fixed=True)),
            dict(name='pcm-many', fn='credit', args=dict(nl=14, fixed=True)), dict(name='gum-many', fn='unfold', args=dict(k=7, fixed=True), exp_den=2)]
    for k in (1, 2) + ((3,) if tier == 'thorough' else ()):
        out.append(dict(name='gum-%d' % k, fn='unfold', args=dict(k=k), exp_den=2))
    return out


UP = 'girth.unidimensional.polytomous.partial_integrals_poly'
UD = 'girth.unidimensional.dichotomous.partial_integrals'
MD = 'girth.multidimensional.partial_integral_md'


def _match(h, u, k, like):
    """answer index k against the estimator's likelihoods in category order"""
    cum, ok = 0, False
    for c, p in enumerate(like):
        lo = -1 if c == 0 else cum - 1e-9
        cum = cum + p
        hi = 2 if c == len(like) - 1 else cum + 1e-9
        ok = h.any(ok, h.all(k == c, u > lo, u <= hi))
    h.check('drawn with the estimator\'s likelihood', ok)
    h.eq('likelihoods add to one', cum, 1.0)
    h.reach()


def _dich(h, u, answer, wrong, right):
    h.check('correct exactly with the estimator\'s likelihood',
            h.any(h.all(answer == 1, u <= right + 1e-9), h.all(answer == 0, u > right - 1e-9)))
    h.eq('likelihoods add to one', wrong + right, 1.0)
    h.reach()


def _u(h):
    return h.ctx.real('rng0_u#0', 0, 1)


def two(h, g):
    th, b, a = h.reals('theta', 1, -7, 7), h.reals('b', 1, -7, 7), h.reals('a', 1, 0.1, 5)
    o = h.lst(g.create_synthetic_irt_dichotomous(b, a, th, seed=1))[0][0]
    f = h.private(UD, '_compute_partial_integral')
    L = h.lst(f(th, h.lst(b)[0], h.lst(a)[0], h.arr([0, 1], int), h.arr([False, False], bool)))
    _dich(h, _u(h), o, L[0][0], L[1][0])


def three(h, g):
    th, b, a, c = h.reals('theta', 1, -7, 7), h.reals('b', 1, -7, 7), h.reals('a', 1, 0.1, 5), h.reals('c', 1, 0, 0.9)
    o = h.lst(g.create_synthetic_irt_dichotomous(b, a, th, guessing=c, seed=1))[0][0]
    f = h.private(UD, '_compute_partial_integral_3pl')
    sign = g.convert_responses_to_kernel_sign(h.arr([[0, 1]], int))
    L = h.lst(f(h.arr([h.lst(th)[0]] * 2), b, a, c, sign))
    _dich(h, _u(h), o, L[0][0], L[1][0])


def md_two(h, g, nf):
    th, b, a = h.reals('theta', (nf, 1), -7, 7), h.reals('b', 1, -7, 7), h.reals('a', (1, nf), -5, 5)
    o = h.lst(g.create_synthetic_irt_dichotomous(b, a, th, seed=1))[0][0]
    f = h.private(MD, '_graded_partial_integral_md')
    B, A = h.lst(b)[0], h.lst(a)[0]
    L = h.lst(f(th, h.arr([10000.0, B]), h.arr([B, -10000.0]), h.arr([A, A]), h.arr([0, 1], int), h.arr([False, False], bool)))
    _dich(h, _u(h), o, L[0][0], L[1][0])


def _thr(h, nl, up):
    b = [h.real('b%d' % j, -7, 7) for j in range(nl)]
    for x, y in zip(b, b[1:]):
        h.assume(x < y if up else x > y)
    return b


def graded(h, g, nl, fixed=False):
    th, b, a = (h.arr([0.25]), [-1.75 + 0.25 * j for j in range(nl)], 1.25) if fixed else (h.reals('theta', 1, -7, 7), _thr(h, nl, True), h.real('a', 0.1, 5))
    o = h.lst(g.create_synthetic_irt_polytomous(h.arr([b]), h.arr([a]), th, model='grm', seed=1))[0][0]
    f = h.private(UP, '_graded_partial_integral')
    L = h.lst(f(th, h.arr([-10000.0] + b), h.arr(b + [10000.0]), h.arr([a] * (nl + 1)), h.arr(list(range(nl + 1)), int), h.arr([False] * (nl + 1), bool)))
    _match(h, _u(h), o - 1, [r[0] for r in L])


def md_graded(h, g, nl, fixed=False):
    th, b, a = (h.arr([[0.25], [-0.5]]), [1.75 - 0.25 * j for j in range(nl)], h.arr([[1.25, -0.5]])) if fixed else (h.reals('theta', (2, 1), -7, 7), _thr(h, nl, False), h.reals('a', (1, 2), -5, 5))
    o = h.lst(g.create_synthetic_irt_polytomous(h.arr([b]), a, th, model='grm_md', seed=1))[0][0]
    f = h.private(MD, '_graded_partial_integral_md')
    L = h.lst(f(th, h.arr([10000.0] + b), h.arr(b + [-10000.0]), h.arr([h.lst(a)[0]] * (nl + 1)), h.arr(list(range(nl + 1)), int), h.arr([False] * (nl + 1), bool)))
    _match(h, _u(h), o - 1, [r[0] for r in L])


def credit(h, g, nl, fixed=False):
    th, b, a = (h.arr([0.25]), [-1.0 + 0.25 * (j * 3 % 7) for j in range(nl)], 1.25) if fixed else (h.reals('theta', 1, -7, 7), [h.real('b%d' % j, -7, 7) for j in range(nl)], h.real('a', 0.1, 5))
    o = h.lst(g.create_synthetic_irt_polytomous(h.arr([b]), h.arr([a]), th, model='pcm', seed=1))[0][0]
    f = h.private(UP, '_credit_partial_integral')
    L = h.lst(f(th, h.arr([0.0] + b), a, h.arr(list(range(nl + 1)), int), h.arr([False] * (nl + 1), bool)))
    _match(h, _u(h), o - 1, [r[0] for r in L])


def unfold(h, g, k, fixed=False):
    th = h.reals('theta', 1, -7, 7)
    t, d, a = [h.real('t%d' % j, -5, 5) for j in range(k)], h.real('d', -5, 5), h.real('a', 0.1, 4)
    if fixed:
        th, t, d, a = h.arr([0.25]), [-1.5 + 0.25 * (j * 3 % 7) for j in range(k)], 0.5, 1.25
    D = [d + v for v in t] + [d] + [d - v for v in t[::-1]]
    o = h.lst(g.create_synthetic_irt_polytomous(h.arr([D]), h.arr([a]), th, model='gum', seed=1))[0][0]
    f = h.private(UP, '_unfold_partial_integral')
    fold = h.arr([k + 0.5 - j for j in range(k + 1)])
    L = h.lst(f(th, d, h.arr(t), a, fold, h.arr(list(range(k + 1)), int), h.arr([False] * (k + 1), bool)))
    _match(h, _u(h), o - 1, [r[0] for r in L])
