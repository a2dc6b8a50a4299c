"""Every public entry point is called twice on the same arguments with calls on other arguments in between: the
arguments afterwards are compared with deep copies made before, the second result with the first.  Searches and seeded
generators give both calls the same (arbitrary) answers."""
from .spec import INVALID

BOUNDS = '2-3 items x 3-5 persons (free cells in all categories and missing, every storage type accepted), arbitrary real parameters, 1-2 sweeps; two calls with another call in between'
ASSUMPTIONS = ['searches and seeded generators give equal questions equal answers', 'one active quadrature node']

M = INVALID


# ------------------------------------------------------------------ arguments
def dich(h, t, miss=True):
    x = h.choose('x', (0, 1, M) if miss else (0, 1))
    return h.arr([[0, 1, x, 1], [1, 0, 0, M if miss else 1], [0, 0, 1, 1]][:3 if miss else 2], t)


def codes(h, t):
    return h.arr([[0, 1, h.choose('x', (0, 1, M, 7)), 1], [1, 0, 0, M], [0, 0, 1, 1]], t)


def dich2(h, t):
    return h.arr([[1, 0, 1, 0], [0, 0, 1, 1]], t)


def poly(h, t):
    x = h.choose('x', (1, 3, M))
    return h.arr([[1, 2, 3, x, 2], [1, 2, M, 1, 2]], t)


def polys(h, t):
    return h.arr([[1, 2, 3, h.choose('x', (3, M))], [1, 2, M, 1]], t)


def poly2(h, t):
    return h.arr([[2, 2, 1, 1, 2], [1, 2, 2, 1, 1]], t)


def md(h, t):
    x = h.choose('x', (1, 2, M))
    return h.arr([[1, 2, 2, x], [2, 1, M, 2], [1, 2, 1, 2]], t)


def md2(h, t):
    return h.arr([[2, 1, 2, 1], [1, 1, 2, 2], [2, 2, 1, 1]], t)


def mds(h, t):
    return h.arr([[1, 2, h.choose('x', (2, M))], [2, 1, 1]], t)


def mds2(h, t):
    return h.arr([[1, 2, 2], [2, 1, 2]], t)


def vec(h, name, n, lo, hi, t=float):
    if t is int:
        return h.arr([h.cat('%s%d' % (name, i), range(int(lo) + (lo != int(lo)), int(hi) + 1)) for i in range(n)], int)
    return h.arr([h.real('%s%d' % (name, i), lo, hi) for i in range(n)])


def opt(h, **k):
    lo, hi = h.real('lo', -6, -1), h.real('hi', 0.5, 6)
    d = dict(quadrature_n=8, quadrature_bounds=(lo, hi), distribution=h.uf('prior', 0.01, 1))
    d.update(k)
    return d


def sweep(h, **k):
    return opt(h, max_iteration=1, **k)


OTHER = dict(max_iteration=2, quadrature_n=8, quadrature_bounds=(-3.0, 3.0))

ENTRIES = {}


def entry(types=(int, float), where='girth', world=None, paths=80, over=None, cost=1):
    def deco(f):
        ENTRIES[f.__name__] = (f, types, where, world, paths, over, cost)
        return f
    return deco


# each returns (positional, keyword) for the call and for the call in between
@entry()
def tag_missing_data(h, t):
    return ([h.arr([[0, 1, 5], [2, h.choose('x', (0, 3, 9)), 1]], t), [0, 1]], {}), ([h.arr([[3, 4]], t), [3]], {})


@entry()
def convert_responses_to_kernel_sign(h, t):
    return ([codes(h, t)], {}), ([dich2(h, t)], {})


@entry()
def get_true_false_counts(h, t):
    return ([codes(h, t)], {}), ([dich2(h, t)], {})


@entry()
def mml_approx(h, t):
    return ([codes(h, t)], dict(discrimination=vec(h, 'a', 3, 0.2, 3))), ([dich2(h, t)], {})


@entry()
def mml_approx_scalar(h, t):
    return ([dich(h, t)], dict(discrimination=vec(h, 'a', 3, 0.2, 3), scalar=vec(h, 's', 3, -2, 2))), ([dich2(h, t)], {})


@entry(types=(int,))
def trim_response_set_and_counts(h, t):
    d = dich(h, t)
    return ([d, vec(h, 'n', 4, 1, 5)], {}), ([dich2(h, t), h.arr([1.0, 2, 1, 1])], {})


@entry()
def condition_polytomous_response(h, t):
    return ([poly(h, t)], {}), ([poly2(h, t)], dict(trim_ends=False))


@entry()
def condition_polytomous_response_keep(h, t):
    return ([poly(h, t)], dict(trim_ends=False, _reference=0.0)), ([poly2(h, t)], {})


@entry(types=(int,))
def validate_estimation_options(h, t):
    return ([opt(h, max_iteration=h.ctx.int('it', 1, 30))], {}), ([dict(OTHER)], {})


@entry(types=(int,))
def default_options(h, t):
    return ([], {}), ([], {})


@entry()
def ability_eap(h, t):
    return ([dich(h, int), vec(h, 'b', 3, -3, 3, t), vec(h, 'a', 3, 0.5, 3)], dict(options=opt(h))), ([dich2(h, int), h.arr([0.5, 1]), 1.0], dict(options=dict(OTHER)))


@entry()
def ability_map(h, t):
    return ([dich(h, int), vec(h, 'b', 3, -3, 3, t), vec(h, 'a', 3, 0.5, 3)], dict(options=opt(h))), ([dich2(h, int), h.arr([0.5, 1]), 1.0], {})


@entry()
def ability_mle(h, t):
    return ([dich(h, int), vec(h, 'b', 3, -3, 3, t), vec(h, 'a', 3, 0.5, 3)], dict(no_estimate=6.0)), ([dich2(h, int), h.arr([0.5, 1]), 1.0], {})


@entry()
def ability_3pl_eap(h, t):
    return ([dich(h, int), vec(h, 'b', 3, -3, 3, t), vec(h, 'a', 3, 0.5, 3), vec(h, 'c', 3, 0.02, 0.4)], dict(options=opt(h))), ([dich2(h, int), h.arr([0.5, 1]), 1.0], {})


@entry()
def ability_3pl_map(h, t):
    return ([dich(h, int), vec(h, 'b', 3, -3, 3, t), vec(h, 'a', 3, 0.5, 3), vec(h, 'c', 3, 0.02, 0.4)], dict(options=opt(h))), ([dich2(h, int), h.arr([0.5, 1]), 1.0, 0.1], {})


@entry()
def ability_3pl_mle(h, t):
    return ([dich(h, int), vec(h, 'b', 3, -3, 3, t), vec(h, 'a', 3, 0.5, 3), vec(h, 'c', 3, 0.02, 0.4)], dict(no_estimate=6.0)), ([dich2(h, int), h.arr([0.5, 1]), 1.0, 0.1], {})


def _mdargs(h, t):
    b = h.arr([[h.real('b%d' % i, -2, 2)] for i in range(3)])
    a = h.arr([[h.real('a%d%d' % (i, f), 0.2, 2) for f in range(2)] for i in range(3)])
    return [md(h, int), b, a]


def _mdother(h, t):
    return [md2(h, int), h.arr([[0.5], [1.0], [0.0]]), h.arr([[1.0, 0.5], [0.5, 1.0], [1.0, 0.0]])]


@entry(types=(float,))
def multidimensional_ability_eap(h, t):
    return (_mdargs(h, t), dict(options=opt(h))), (_mdother(h, t), dict(options=dict(OTHER, quadrature_n=8)))


@entry(types=(float,))
def multidimensional_ability_map(h, t):
    return (_mdargs(h, t), dict(options=opt(h))), (_mdother(h, t), {})


def _est(types=(int,), other=dich2, data=dich, extra=None, oopt=OTHER, **k):
    def make(name, args=lambda h: []):
        def f(h, t):
            return ([data(h, t)] + args(h), dict(options=sweep(h, **(extra or {})))), ([other(h, t)] + args(h), dict(options=dict(oopt)))
        f.__name__ = name
        entry(types=types, **k)(f)
    return make


nomiss = lambda h, t: dich(h, t, False)     # noqa
_est()('rasch_mml', lambda h: [h.real('a', 0.3, 3)])
_est()('onepl_mml')
_est()('rasch_jml', lambda h: [h.real('a', 0.3, 3)])
_est()('onepl_jml')
_est()('twopl_jml')
_est(data=nomiss)('rasch_conditional', lambda h: [h.real('a', 0.3, 3)])
_est()('threepl_mml')
lut = dict(over='LUT')
_est(**lut)('twopl_mml')
_est(data=poly, other=poly2, **lut)('grm_mml')
_est(data=poly, other=poly2, cost=3, extra=dict(hyper_quadrature_n=9, quadrature_bounds=(-2.0, 3.0)), oopt=dict(hyper_quadrature_n=9, quadrature_n=8, max_iteration=1, quadrature_bounds=(-2.0, 3.0)),
     world=dict(active={8: [3], 9: [4]}, spans={8: (-2.0, 3.0), 9: (0.25, 5.0)}, naming=([(0.28, 4.97)] * 2 + [(0.13, 4.97)]) * 2), **lut)('grm_mml_eap')
_est(data=poly, other=poly2)('grm_jml')
_est(data=poly, other=poly2)('pcm_mml')
_est(data=poly, other=poly2)('pcm_jml')
_est(data=polys, other=poly2, paths=120, oopt=dict(OTHER, max_iteration=1))('gum_mml', lambda h: [h.choose('sign', ((0, 1), (1, -1)))])
_est(data=mds, other=mds2, cost=3, extra=dict(quadrature_bounds=(-2.0, 3.0)), oopt=dict(quadrature_n=8, max_iteration=1, quadrature_bounds=(-3.0, 3.0)), world=dict(spans={8: (-2.0, 3.0)}), **lut)('multidimensional_grm_mml', lambda h: [2])
_est(data=mds, other=mds2, cost=3, extra=dict(quadrature_bounds=(-2.0, 3.0)), oopt=dict(quadrature_n=8, max_iteration=1, quadrature_bounds=(-3.0, 3.0)), world=dict(spans={8: (-2.0, 3.0)}), **lut)('multidimensional_twopl_mml', lambda h: [2])
_est(data=md, other=md2, over='INIT')('initial_guess_md', lambda h: [2])


@entry(types=(int,))
def create_beta_LUT(h, t):
    return ([(0.25, 2.0, 3), (-3.0, 3.0, 4)], dict(options=opt(h))), ([(0.25, 2.0, 2), (-2.0, 2.0, 3)], {})


@entry(where='girth.synthetic')
def create_synthetic_irt_dichotomous(h, t):
    return ([vec(h, 'b', 2, -2, 2, t), vec(h, 'a', 2, 0.5, 2), vec(h, 'th', 2, -2, 2)], dict(guessing=vec(h, 'c', 2, 0, 0.4), seed=5)), \
        ([h.arr([0.0, 1]), 1.0, h.arr([0.5])], dict(seed=6))


@entry(types=(float,), where='girth.synthetic')
def create_synthetic_irt_dichotomous_md(h, t):
    a = h.arr([[h.real('a%d%d' % (i, f), -2, 2) for f in range(2)] for i in range(2)])
    th = h.arr([[h.real('th%d%d' % (f, p), -2, 2) for p in range(2)] for f in range(2)])
    return ([vec(h, 'b', 2, -2, 2, t), a, th], dict(seed=5)), ([h.arr([0.0, 1]), 1.0, h.arr([0.5])], dict(seed=6))


def _steps(h, t, odd=False):
    if odd:
        return h.arr([[-1.5, 0.0, 1.5]])
    x = h.real('b', -2, 1)
    return h.arr([[x, x + h.real('g', 0.1, 1)]])


@entry(types=(float,), where='girth.synthetic')
def create_synthetic_irt_polytomous(h, t):
    model = h.choose('model', ('grm', 'pcm'))
    return ([_steps(h, t), vec(h, 'a', 1, 0.5, 2), vec(h, 'th', 2, -2, 2)], dict(model=model, seed=5)), ([h.arr([[0.0, 1]]), 1.0, h.arr([0.5])], dict(seed=6))


@entry(types=(float,), where='girth.synthetic')
def create_synthetic_irt_polytomous_gum(h, t):
    return ([_steps(h, t, True), vec(h, 'a', 1, 0.5, 2), vec(h, 'th', 2, -2, 2)], dict(model='gum', seed=5)), ([h.arr([[0.0, 1]]), 1.0, h.arr([0.5])], dict(seed=6))


@entry(types=(float,), where='girth.synthetic')
def create_synthetic_irt_polytomous_md(h, t):
    x = h.real('b', -2, 1)
    a = h.arr([[h.real('a%d' % f, -2, 2) for f in range(2)]])
    th = h.arr([[h.real('th%d%d' % (f, p), -2, 2) for p in range(2)] for f in range(2)])
    return ([h.arr([[x + 0.5, x]]), a, th], dict(model='grm_md', seed=5)), ([h.arr([[0.0, 1]]), 1.0, h.arr([0.5])], dict(seed=6))


@entry()
def classical_test_statistics(h, t):
    x = h.choose('x', (1, 3, M))
    return ([h.arr([[1, 2, 3, x, 2], [1, 2, M, 1, 2], [3, 1, 2, 2, 2]], t)], dict(start_value=1, stop_value=3)), ([h.arr([[1, 2, 3], [1, 2, 1], [3, 1, 2]], t)], {})


@entry(where='girth.common')
def cronbach_alpha(h, t):
    x = h.choose('x', (1, 3))
    return ([h.arr([[1, 2, 3, x], [1, 2, 2, 1]], t)], {}), ([h.arr([[1, 2, 3], [1, 2, 1]], t)], {})


@entry(where='girth.common')
def reverse_score(h, t):
    mask = [h.choose('m%d' % i, (True, False)) for i in range(2)]
    return ([poly(h, t), h.arr(mask, bool)], dict(max_val=3)), ([poly2(h, t), h.arr([True, False], bool)], {})


@entry(where='girth.common')
def contingency_table(h, t):
    return ([h.arr([1, 2, 2, M, h.choose('x', (1, 2, 5))], t), h.arr([2, 1, 2, 1, 1], t)], dict(start_val=1, stop_val=2)), ([h.arr([1, 2], t), h.arr([2, 2], t)], {})


@entry(where='girth.common')
def validate_contingency_table(h, t):
    return ([h.arr([[1, 0, h.choose('x', (0, 2))], [0, 0, 0], [2, 0, 1]], t)], {}), ([h.arr([[1, 2], [2, 1]], t)], {})


@entry(where='girth.common')
def polychoric_correlation(h, t):
    return ([poly(h, t)], dict(start_val=1, stop_val=3, num_processors=h.choose('procs', (1, 2)))), ([poly2(h, t)], dict(start_val=1, stop_val=2))


@entry(where='girth.common')
def polychoric_correlation_serial(h, t):
    return ([poly(h, t)], dict(start_val=1, stop_val=3)), ([poly2(h, t)], dict(start_val=1, stop_val=2))


@entry(where='girth.common')
def polyserial_correlation(h, t):
    return ([vec(h, 'y', 3, -3, 3), h.arr([1, 2, h.choose('x', (1, 2, 3))], t)], {}), ([h.arr([0.5, 1, 2, 1.5]), h.arr([1, 2, 1, 3], t)], {})


@entry(types=(float,), where='girth.common')
def hyperspherical_angles(h, t):
    return ([vec(h, 'v', 3, -2, 2)], {}), ([h.arr([1.0, 2.0])], {})


@entry(types=(float,), where='girth.common')
def hyperspherical_vector(h, t):
    return ([vec(h, 'v', 2, -2, 2)], {}), ([h.arr([1.0])], {})


@entry(types=(float,), where='girth.common')
def entropy(h, t):
    return ([h.arr([[h.real('x%d%d' % (i, j), 0.1, 2) for j in range(2)] for i in range(2)])], dict(axis=h.choose('axis', (0, 1)))), ([h.arr([[1.0, 2]])], {})


@entry(types=(float,), where='girth.common')
def procrustes_rotation(h, t):
    a, b = [h.arr([[h.real('%s%d%d' % (n, i, j), -1, 1) for j in range(2)] for i in range(3)]) for n in 'xy']
    return ([a, b], {}), ([h.arr([[1.0, 0], [0, 1]]), h.arr([[0.5, 0.25], [0, 1]])], {})


def _cov(h, n):
    x = [[h.real('r%d%d' % (min(i, j), max(i, j)), -0.4, 0.4) if i != j else 1.0 for j in range(n)] for i in range(n)]
    return h.arr(x)


FIXED = [[1.0, 0.5, 0.25], [0.5, 1.0, 0.375], [0.25, 0.375, 1.0]]


@entry(types=(float,), where='girth.factoranalysis')
def principal_components_analysis(h, t):
    return ([_cov(h, 3)], dict(n_factors=2)), ([_cov(h, 2)], {})


@entry(types=(float,), where='girth.factoranalysis')
def principal_axis_factor(h, t):
    guess = vec(h, 'u', 3, 0.1, 0.9) if h.choose('guess', (True, False)) else None
    return ([_cov(h, 3), 2], dict(initial_guess=guess)), ([h.arr(FIXED), 1], {})


@entry(types=(float,), where='girth.factoranalysis')
def maximum_likelihood_factor_analysis(h, t):
    guess = h.arr([0.5, 0.75, 0.25]) if h.choose('guess', (True, False)) else None
    return ([h.arr(FIXED), 1], dict(initial_guess=guess, max_iter=3)), ([h.arr(FIXED[:2])[:, :2], 1], {})


@entry(types=(float,), where='girth.factoranalysis')
def minimum_rank_factor_analysis(h, t):
    guess = vec(h, 'u', 3, 0.1, 0.9) if h.choose('guess', (True, False)) else None
    return ([h.arr(FIXED), 1], dict(initial_guess=guess)), ([h.arr(FIXED[:2])[:, :2], 1], {})


@entry(types=(float,), where='girth.factoranalysis')
def sparsify_loadings(h, t):
    a = h.arr([[h.real('x%d%d' % (i, j), -1, 1) for j in range(2)] for i in range(2)])
    guess = h.choose('guess', (None, 'given'))
    orth = h.choose('orthogonal', (False, True))
    if guess:
        guess = vec(h, 'g', 2, -1, 1)
    return ([a], dict(initial_guess=guess, orthogonal=orth, seed=4)), ([h.arr([[1.0, 0.5]])], dict(seed=4))


@entry(types=(int,))
def standard_errors_bootstrap(h, t):
    sol = dict(Difficulty=vec(h, 'b', 2, -2, 2), Discrimination=vec(h, 'a', 2, 0.5, 2))

    def model(d, options=None):
        return dict(Difficulty=h.arr([1.0 * h.lst(d)[0][0], 0.5]), Discrimination=h.arr([1.0, 2.0]))
    return ([h.arr([[0, 1, 1], [1, 0, 1]], int), model], dict(solution=sol, bootstrap_iterations=3, n_processors=h.choose('procs', (1, 2)), options=sweep(h), seed=3)), \
        ([h.arr([[0, 1], [1, 0]], int), model], dict(solution=sol, bootstrap_iterations=2, seed=3))


NAMES = dict(mml_approx_scalar='mml_approx', condition_polytomous_response_keep='condition_polytomous_response',
             create_synthetic_irt_dichotomous_md='create_synthetic_irt_dichotomous', create_synthetic_irt_polytomous_gum='create_synthetic_irt_polytomous',
             create_synthetic_irt_polytomous_md='create_synthetic_irt_polytomous')


def configs(tier):
    out = []
    for name, (f, types, where, world, paths, over, cost) in ENTRIES.items():
        for t in types:
            w = dict(active=[3], probes={0: 1, 1: 0})
            w.update(world or {})
            out.append(dict(name='%s-%s' % (name, t.__name__), fn='pure', args=dict(entry=name, t=t.__name__), world=w, max_paths=paths, cost=cost, overrides=over,
                            budget=60, merge=name in ('standard_errors_bootstrap', 'grm_mml_eap')))
        t = types[-1]
        out.append(dict(name='history-%s' % name, fn='history', args=dict(entry=name, t=t.__name__), world=w, max_paths=paths, cost=cost, overrides=over, budget=60, merge=name in ('standard_errors_bootstrap', 'grm_mml_eap')))
    return out


def pure(h, g, entry, t):
    f, _, where, _, _, over, _ = ENTRIES[entry]
    t = dict(int=int, float=float)[t]
    fn = getattr(g.mod(where), NAMES.get(entry, entry))
    (args, kw), (oargs, okw) = f(h, t)
    before = h.frozen(args), h.frozen(kw)
    seen = []

    def call():
        if over:
            _reset(h)
        h.w.choose = c25._choose(h) if entry.startswith('multidimensional_') and over else None
        r = h.outcome(fn, *args, **kw)
        h.kept('arguments', before[0], args)
        h.kept('keyword arguments', before[1], kw)
        seen.append(r[0])
        if r[0] == 'raise':
            h.private(where, 'call refused: %s' % r[1])
        # the caller owns the result: what is done with it does not reach later calls
        return r[1]

    def between():
        if over:
            _reset(h)
        h.w.choose = c25._choose(h) if entry.startswith('multidimensional_') and over else None
        h.outcome(fn, *oargs, **okw)
    a, b = h.again(call, between)
    h.alike('same result', a, b)
    h.reach()


class _Other:
    """h, giving other values under the same names: renamed reals, another choice, another interval"""

    def __init__(self, h, bounds, rename='', pick=0, coarse=False):
        self._h, self._bounds, self._rename, self._pick, self._coarse = h, dict(lo=bounds[0], hi=bounds[1]), rename, pick, coarse
        self._n = 0

    def __getattr__(self, n):
        return getattr(self._h, n)

    def real(self, name, lo=-3.0, hi=3.0):
        if name in self._bounds:
            return self._bounds[name]
        if self._coarse:
            self._n += 1
            return lo + (hi - lo) * (0.25, 0.75, 0.375, 0.5, 0.625)[self._n % 5]
        return self._h.real(self._rename + name, lo, hi)

    def uf(self, name, *a, **k):
        return self._h.uf(self._rename + name, *a, **k)

    def cat(self, name, values):
        return self._h.cat(self._rename + name, values)

    def choose(self, name, values):
        return list(values)[self._pick]


PAST = [((-2.0, 4.0), 'z', 0), ((-3.0, 4.0), '', -1), ((-2.0, 3.0), '', 0), ((-3.0, 3.0), 'y', 0)]


COARSE = ('multidimensional_twopl_mml', 'rasch_jml', 'grm_jml', 'twopl_mml', 'multidimensional_grm_mml', 'grm_mml', 'threepl_mml',
          'gum_mml', 'twopl_jml', 'onepl_jml', 'pcm_mml', 'hyperspherical_angles', 'pcm_jml', 'create_synthetic_irt_polytomous_md',
          'create_synthetic_irt_polytomous_gum', 'create_synthetic_irt_polytomous', 'grm_mml_eap', 'standard_errors_bootstrap', 'rasch_conditional')


def history(h, g, entry, t):
    """a call gives what it gives in a program that has made no other call before; the calls made before share
    some of its arguments (data, parameters, interval or its length) and differ in others"""
    f, _, where, _, _, over, _ = ENTRIES[entry]
    t = dict(int=int, float=float)[t]
    name = NAMES.get(entry, entry)
    (args, kw), (oargs, okw) = f(_Other(h, (-3.0, 3.0)), t)
    coarse = entry in COARSE
    past = [f(_Other(h, b, r, k, coarse), t)[0] for b, r, k in (PAST[1:3] if entry.startswith('multi') and entry.endswith('mml') else PAST)]
    if entry == 'create_beta_LUT':       # (ordering table rows on a fixed interval is not decided in time)
        coarse, (args, kw), past = False, f(h, t)[0], [f(_Other(h, (h.real('lo', -6, -1), h.real('hi', 0.5, 6)), 'z'), t)[0]]
        oargs = None

    def run(gg, a, k):
        if over:
            _reset(h)
        h.w.choose = c25._choose(h) if entry.startswith('multidimensional_') and over else None
        return h.outcome(getattr(gg.mod(where), name), *a, **k)
    one = h.anew()

    def first():
        return run(one, args, kw)

    def before():
        # (the earlier searches of the larger procedures end at fixed points, those of the compared call anywhere)
        h.w.coarse = 0 if coarse else None
        for a, k in past:
            run(g, a, k)
        if oargs is not None:
            run(g, oargs, okw)
        h.w.coarse = None
    a, b = h.again(first, before, lambda: run(g, args, kw))
    h.check('same outcome', a[0] == b[0])
    if a[0] == b[0] == 'ok':
        h.alike('same result', a[1], b[1])
    h.reach()


from . import c19, c22, c25   # noqa
LUT = {}
for _m in (c19, c22, c25):
    LUT.update(_m.LUT)
INIT = c25.INIT


def _reset(h):
    c19._H[:], c25._G[0] = [h, 0, [], None], None
