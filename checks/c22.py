"""Bayesian graded / two parameter estimation.  Each discrimination is compared with the posterior mean over the
discrimination quadrature of (marginal likelihood of all persons x current Rayleigh prior), the prior scale with its posterior
mean under the log-normal hyper-prior given the discriminations; thresholds, abilities and criteria with those of the
returned discriminations."""
from .spec import INVALID, grm, prod, grid, quad, active
from .c19 import recode, data, wrapup, latent_step, ratio, lut_value, _H, _lut

BOUNDS = '1-2 items of 2-3 categories x 2-3 persons (free cells in all categories and missing, constant items), 1-2 active nodes for ability, 1-2 for discrimination and scale, 1-2 sweeps; also large fixed data (over 100 persons, many items, many categories) with at most one free cell'
ASSUMPTIONS = ['the look-up table is an arbitrary function of discrimination and proportion (its accuracy is C07)',
               'marginal likelihoods exceed the 1e-313 floor of the code, discriminations lie inside the prior range',
               'every item has at least one observed response; an item after the first whose observed responses are all at the dataset minimum is a recorded finding (see C19)']

LUT = {'girth.unidimensional.polytomous.grm_mml_eap': {'create_beta_LUT': _lut}}
_D = (0.28, 4.97)
_S = (0.13, 4.97)
_B = (-2.0, 3.0)


def configs(tier):
    out = []

    def world(ab, al, n, it=1):
        return dict(active={8: ab, 9: al}, spans={8: _B, 9: (0.25, 5.0)}, naming=([_D] * n + [_S]) * it)
    for name, cats, m, free, it, ab, al in (
            ('1', (2,), 3, 2, 1, [3], [2, 6]), ('3', (3,), 3, 2, 1, [3], [2, 6]), ('1-two', (2,), 2, 1, 1, [0, 7], [2, 6]),
            ('2-2', (2, 2), 3, 2, 1, [3], [2, 6]), ('3-2', (3, 2), 3, 1, 1, [3], [2, 6]), ('2-3', (2, 3), 3, 1, 1, [3], [2, 6]),
            ('2-2-flow', (2, 2), 3, 2, 1, [0, 7], [4]), ('2-2-2-flow', (2, 2, 2), 3, 1, 1, [3], [4]), ('2-2-sweeps', (2, 2), 2, 1, 2, [3], [4]),
            ('3-2-sweeps', (3, 2), 3, 0, 2, [3], [4]),
            ('many-persons', (3, 2), 120, 0, 1, [3], [4]), ('many-items', (2, 3) * 2, 4, 0, 1, [3], [4]), ('many-categories', (7, 2), 9, 0, 1, [3], [4])):
        out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, box=_B), world=world(ab, al, len(cats), it), merge=True, max_paths=60, overrides='LUT', cost=len(cats) * len(al) * it))
    out.append(dict(name='twopl', fn='fit', args=dict(cats=(2, 2), m=2, free=1, it=1, two=True), world=world([3], [2, 6], 2), merge=True, overrides='LUT', cost=3))
    out.append(dict(name='constant', fn='fit', args=dict(cats=(2, 2), m=2, free=3, it=1), world=world([3], [4], 2), merge=True, overrides='LUT', max_paths=60))
    out.append(dict(name='scale-once', fn='fit', args=dict(cats=(2,), m=2, free=0, it=1, known=True), world=world([3], [2, 6], 1), merge=True, overrides='LUT'))
    for name, cats, m in (('latent', (2,), 2),) + ((('t-latent-2-2', (2, 2), 2), ('t-latent-3', (3,), 3)) if tier == 'thorough' else ()):
        w = dict(world([3], [4], len(cats), 2), probes={0: 1})
        w['spans'] = {8: (-3.0, 3.0), 9: (0.25, 5.0)}
        out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=0, it=2, box=(-3.0, 3.0), latent=True), world=w, merge=True, max_paths=60, overrides='LUT', cost=9))
    if tier == 'thorough':
        for name, cats, m, free, it, ab, al in (('t-2-2-two', (2, 2), 3, 2, 1, [0, 7], [2, 6]), ('t-2-2-2', (2, 2, 2), 3, 2, 1, [3], [2, 6]),
                                                ('t-2-2-sweeps', (2, 2), 3, 1, 3, [3], [4]), ('t-3-two', (3,), 3, 2, 1, [0, 7], [2, 6])):
            out.append(dict(name=name, fn='fit', args=dict(cats=cats, m=m, free=free, it=it, box=_B), world=world(ab, al, len(cats), it), merge=True, max_paths=200, overrides='LUT', cost=9))
    return out


def rayleigh(h, g, x, scale):
    return h.sc(g.sp.stats.rayleigh(loc=0.25, scale=scale).pdf(x))


def lognormal(h, g, x):
    return h.sc(g.sp.stats.lognorm(loc=0, s=0.25).pdf(x))


def fit(h, g, cats, m, free, it, two=False, known=False, box=None, latent=False):
    _H[:] = [h, 0, [], None]
    n = len(cats)
    X = data(h, cats, m, free)
    Y, C = recode(X)
    R = ratio(Y, C)
    qn, bounds, f = 8, box or (h.real('lo', -4, -1), h.real('hi', 0.5, 4)), h.uf('prior')
    opt = dict(quadrature_n=qn, quadrature_bounds=bounds, distribution=f, hyper_quadrature_n=9, max_iteration=it)
    if latent:
        opt.update(estimate_distribution=True, number_of_samples=5)
    th, null = grid(h, g, qn, bounds, f)
    _H[3] = th if latent else None
    d = h.arr(X, int)
    before, keep = h.copy(d), dict(opt)
    out = (g.twopl_mml_eap if two else g.grm_mml_eap)(d, opt)
    h.check('options unchanged', opt == keep)
    if not _H[1]:
        h.private('girth.unidimensional.polytomous.grm_mml_eap', 'create_beta_LUT not used')
    recs = list(h.w.records)
    dw = null
    final = [h.sc(v) for v in h.lst(out['Discrimination'])]
    h.check('one discrimination per item', len(final) == n)
    al = [1.0] * n
    be = [[-1 + 2 * k / (c - 2) for k in range(c - 1)] if c > 2 else [-1.0] for c in C]

    def like(i, j, t, a, b):
        return grm(h, t, b, a)[Y[i][j]] if Y[i][j] != INVALID else 1
    ax, aw = active(*quad(h, g, 9, 0.25, 5.0))
    sx, sw = active(*quad(h, g, 9, 0.1, 5.0))
    if latent:
        h.assume(h.abs(ax[0] - 1) > 0.02)
    scale = 1.0
    for s in range(it):
        if latent and s:
            h.check('one density search per sweep after the first', len(recs) == it - 1)
            if len(recs) != it - 1:
                return
            dw = latent_step(h, g, recs[s - 1], [[prod(like(i, j, t, al[i], be[i]) for i in range(n)) for t in th] for j in range(m)], th, qn, bounds)
            h.check('a table for each density', len(_H[2]) > s)
            if len(_H[2]) > s:
                for u, w, v in zip(_H[2][s][3], active(*quad(h, g, qn, *bounds))[1], dw):
                    h.eq('density of the table', u * w, v)
        tag = s if latent else 0
        for i in range(n):
            num = den = 0
            for x, w in zip(ax, aw):
                A, B = list(al), list(be)
                A[i], B[i] = x, [lut_value(h, x, p, tag) for p in R[i]]
                L = prod(sum(v * prod(like(q, j, t, A[q], B[q]) for q in range(n)) for t, v in zip(th, dw)) for j in range(m))
                k = w * rayleigh(h, g, x, scale) * L
                num, den = num + k * x, den + k
            if it == 1:
                h.eq('posterior mean discrimination', h.definition(final[i]), num / den)
                al[i] = final[i]
            else:                       # one discrimination node: the mean is that node
                al[i] = ax[0]
            be[i] = [lut_value(h, al[i], p, tag) for p in R[i]]
        forms = []
        for rep in ([1] * n, C):        # (second: see known_findings.txt)
            num = den = 0
            for x, w in zip(sx, sw):
                k = w * lognormal(h, g, x) * prod(rayleigh(h, g, a, x) ** r for a, r in zip(al, rep))
                num, den = num + k * x, den + k
            forms.append(num / den)
        if it == 1:
            v = h.definition(h.sc(out['Rayleigh_Scale']))
            if known:
                h.eq('posterior mean scale given each discrimination once', v, forms[0])
            else:
                h.eq('posterior mean scale', v, h.nearest(v, forms))
        else:                           # (one scale node)
            scale = sx[0]
    for u, v in zip(final, al):
        h.eq('discrimination returned', u, v)
    D = h.lst(out['Difficulty'])
    for i in range(n):
        row = D[i] if isinstance(D[i], list) else [D[i]]
        h.check('threshold columns', len(row) == max(C) - 1)
        for u, v in zip(row, be[i]):
            h.eq('thresholds returned', u, v)
        h.check('unused thresholds', all(not hasattr(u, 'd') and u != u for u in row[C[i] - 1:]))
    wrapup(h, out, m, lambda j, t: prod(like(i, j, t, al[i], be[i]) for i in range(n)), th, null, dw, 2 if latent else 0)
    h.unchanged('data', before, d)
    h.reach()
