"""Every estimator that accepts missing cells is run on a dataset and on the same people in another order together with
a person who answered nothing; searches that ask the same question get the same (arbitrary) answer.  The item searches
must then rank parameter values alike, item results must agree and abilities follow their owners.  What single missing cells
contribute (nothing) is decided against the likelihood of the observed cells, estimator by estimator."""
import importlib
import random

from symx import term as T
from .spec import INVALID
from . import c36
from .c36 import vec, opt, sweep

BOUNDS = '3 items x 4-5 persons (2 x 3 for unfolding and several dimensions) with missing cells and a free cell, 1 sweep (thorough 2), 1-2 active quadrature nodes, arbitrary real parameters; the second dataset adds one person without responses and reorders the others'
ASSUMPTIONS = ['searches asking the same question give the same answer', 'the latent distribution is not estimated', 'rasch_conditional is documented to take no missing data']

M = INVALID


def dich(h, x):
    return [[0, 1, x, 1], [1, 0, 0, M], [0, 0, 1, 1]]


def poly(h, x):
    return [[1, 2, 3, x, 2], [1, 2, M, 1, 2]]


def polys(h, x):
    return [[1, 2, 3, x], [1, 2, M, 1]]


def md(h, x):
    return [[1, 2, x], [2, 1, 1]]


def mda(h, x):
    return [[1, 2, 2, x], [2, 1, M, 2], [1, 2, 1, 2]]


#        name -> (data, values of the free cell, rest of the call, world, override, merge, cost)
def polyj(h, x):
    return [[1, 2, 3, x, 2], [1, 2, M, 1, 1], [1, 1, 3, 2, 2]]


DX, PX = (0, M), (1, M)
ENTRIES = {}


def add(name, data, xs, args=lambda h: [], world=None, over=None, merge=False, cost=1, fn='estimate', **k):
    ENTRIES[name] = dict(data=data, xs=xs, args=args, world=world, over=over, merge=merge, cost=cost, fn=fn, k=k)


for _n in ('rasch_mml', 'rasch_jml'):
    add(_n, dich, DX, lambda h: [h.real('a', 0.3, 3)])
for _n in ('onepl_mml', 'onepl_jml', 'twopl_jml'):
    add(_n, dich, DX)
add('twopl_mml', dich, DX, over='LUT')
add('threepl_mml', dich, DX)
add('grm_mml', poly, PX, over='LUT')
add('grm_mml_eap', poly, PX, over='LUT', merge=True, cost=3, extra=dict(hyper_quadrature_n=9, quadrature_bounds=(-2.0, 3.0)),
    world=dict(active={8: [3], 9: [4]}, spans={8: (-2.0, 3.0), 9: (0.25, 5.0)}, naming=([(0.28, 4.97)] * 2 + [(0.13, 4.97)]) * 2))
add('grm_jml', polyj, PX)
add('pcm_mml', poly, PX)
add('pcm_jml', polyj, PX)
add('gum_mml', polys, (3, M))
_W = dict(spans={8: (-2.0, 3.0)})
for _n in ('multidimensional_grm_mml', 'multidimensional_twopl_mml'):
    add(_n, md, (2, M), lambda h: [2], over='LUT', cost=3, extra=dict(quadrature_bounds=(-2.0, 3.0)), world=_W)


def _b(h):
    return [vec(h, 'b', 3, -3, 3), vec(h, 'a', 3, 0.5, 3)]


def _c(h):
    return _b(h) + [vec(h, 'c', 3, 0.02, 0.4)]


def _ab(h):
    b = h.arr([[h.real('b%d' % i, -2, 2)] for i in range(3)])
    a = h.arr([[h.real('a%d%d' % (i, f), 0.2, 2) for f in range(2)] for i in range(3)])
    return [b, a]


add('ability_eap', dich, DX, _b, fn='abilities')
add('ability_map', dich, DX, _b, fn='abilities')
add('ability_mle', dich, DX, _b, fn='abilities', none=True)
add('ability_3pl_eap', dich, DX, _c, fn='abilities')
add('ability_3pl_map', dich, DX, _c, fn='abilities')
add('ability_3pl_mle', dich, DX, _c, fn='abilities', none=True)
add('multidimensional_ability_eap', mda, (1, M), _ab, fn='abilities', merge=False)
add('multidimensional_ability_map', mda, (1, M), _ab, fn='abilities')
add('polychoric_correlation', poly, PX, fn='correlation')
add('polychoric_correlation_serial', poly, PX, fn='correlation')


def configs(tier):
    out = []
    for name, e in ENTRIES.items():
        for how in ('added', 'order', 'both'):
            if tier == 'quick' and how == 'both' and e['cost'] > 1:
                continue
            w = dict(active=[3], probes={0: 1, 1: 0})
            w.update(e['world'] or {})
            out.append(dict(name='%s-%s' % (name, how), fn=e['fn'], args=dict(entry=name, how=how), world=w, max_paths=60, cost=e['cost'], overrides=e['over'], merge=e['merge'], budget=60))
            if name in ('rasch_mml', 'onepl_mml', 'twopl_mml', 'ability_eap') and how != 'order':
                out.append(dict(out[-1], name='%s-%s-2nodes' % (name, how), world=dict(w, active=[2, 5])))
            if tier == 'thorough' and name == 'grm_mml':
                out.append(dict(out[-1], name='%s-%s-2nodes' % (name, how), world=dict(w, active=[2, 5]), budget=200))
            if tier == 'thorough' and e['fn'] == 'estimate':
                out.append(dict(out[-1], name='%s-%s-2sweeps' % (name, how), args=dict(entry=name, how=how, it=2)))
    for mod, names in FORMULA.items():
        for c in importlib.import_module('checks.' + mod).configs(tier):
            if c['name'] in names:
                out.append(dict(c, name='cells-%s-%s' % (mod, c['name']), fn='cells', args=dict(mod=mod, scenario=c['fn'], args=c['args'])))
    return out


# every free cell of these is missing on some paths: searches and results against likelihoods of the observed cells
FORMULA = dict(c14=['eap-array', '3pl-default', 'md-2x2'], c15=['map-array', 'map-default', 'map-3pl-3', 'mle-3', 'mle-3pl-3', 'md-2x2'],
               c16=['rasch-2x4', 'onepl-2x4'], c18=['onepl-2x3-1', 'rasch-2x3-1', 'twopl-2x3-1'], c19=['lut-2-2-2', 'lut-2-3-2', 'solve-2-2', 'twopl'],
               c20=['2-2-2', '2-3-2'], c21=['2-3-2'], c22=['1', '2-3'], c23=['1x4', '2x3'], c24=['grm-2-3', 'pcm-2-3'], c25=['2-2', '2-3', 'twopl'])


def cells(h, g, mod, scenario, args):
    """the likelihood formulas of the single estimator's check (which leave missing cells out), run here on datasets with missing cells"""
    getattr(importlib.import_module('checks.' + mod), scenario)(h, g, **args)


ORDER = {3: (2, 0, 1), 4: (2, 3, 0, 1), 5: (3, 1, 4, 0, 2)}


def other(X, how):
    """the second dataset and, for each of its persons, who that is in the first (None: answered nothing)"""
    m = len(X[0])
    who = list(ORDER[m]) if how != 'added' else list(range(m))
    if how != 'order':
        who.insert(1, None)
    return [[M if p is None else r[p] for p in who] for r in X], who


def pair(h, first, second, match, choose=None):
    """both results; a person search (match) gets the answer of an earlier search for the same question, if there was one"""
    c, w = h.ctx, h.w
    counters, rngs, n = dict(c.counters), list(w.rngs), len(w.records)
    asked, new = [], [0]

    def hook():
        base = choose(h) if choose else None

        def answer(rec, k):
            if rec.depth or not match(rec):
                return base(rec, k) if base else None
            if isinstance(k, str) and k.endswith('p'):
                return None
            for r, v in asked:
                if r.kind == rec.kind and (r.lo, r.hi) == (rec.lo, rec.hi) and same(h, r, rec):
                    return v
            box = list(zip(rec.lo, rec.hi)) if isinstance(rec.lo, (list, tuple)) else [(rec.lo, rec.hi)]
            new[0] += 1
            v = [h.real('person%d_%d' % (new[0], i), max(u, -10.0), min(o, 10.0)) for i, (u, o) in enumerate(box)]
            v = v if isinstance(k, str) else v[0]
            asked.append((rec, v))
            return v
        return answer if match else base
    w.choose = hook()
    a = h.outcome(first)
    one, known = list(w.records[n:]), len(asked)
    c.counters, w.rngs = dict(counters), rngs
    n = len(w.records)
    w.choose = hook()
    b = h.outcome(second)
    w.choose = None
    return a, b, one, list(w.records[n:]), len(asked) - known


def same(h, r, rec):
    """the objective takes the values of the earlier one where that was evaluated"""
    n, m = len(h.w.records), len(h.w.order)
    stack, h.w.stack = h.w.stack, []
    try:
        return all(near(h, rec.fun(e.x, *rec.extra.get('args', ())), e.value) for e in r.evals)
    finally:
        del h.w.records[n:], h.w.order[m:]
        h.w.stack = stack


def near(h, a, b):
    a, b = h.sc(a), h.sc(b)
    if not h.symbolic:
        return abs(a - b) <= 1e-9 * (1 + abs(b))
    for env in h.ctx.sample_envs()[:2] or [h.ctx.rand_env(random.Random(3))]:
        try:
            u, v = T.evaluate(T.lift(a), env), T.evaluate(T.lift(b), env)
        except Exception:   # noqa
            continue
        if abs(u - v) > 1e-9 * (1 + abs(v)):
            return False
    return True


def _cell(h, e):
    return h.choose('x', e['xs'])


def _run(h, g, entry, how, it=1):
    e = ENTRIES[entry]
    X = e['data'](h, _cell(h, e))
    Y, who = other(X, how)
    fn = getattr(g.mod('girth.common') if entry.startswith('poly') else g.mod('girth'), entry)
    return e, X, Y, who, fn


def estimate(h, g, entry, how, it=1):
    e, X, Y, who, fn = _run(h, g, entry, how)
    args = e['args'](h)
    o = sweep(h, **e['k'].get('extra', {}))
    o['max_iteration'] = it

    def call(D):
        def f():
            if e['over']:
                c36._reset(h)
            return fn(h.arr(D, int), *args, options=dict(o))
        return f
    jml = entry.endswith('_jml')
    a, b, one, two, fresh = pair(h, call(X), call(Y), (lambda r: (r.lo, r.hi) == (-6, 6)) if jml else None,
                                 c36.c25._choose if entry.startswith('multidimensional_') else None)
    h.check('same outcome', a[0] == b[0])
    if a[0] == 'raise':
        h.private('girth', 'call refused: %s' % a[1])
    h.check('no further search', fresh == 0 and len(one) == len(two))
    items = [(r, s) for r, s in zip([r for r in one if not (jml and (r.lo, r.hi) == (-6, 6))], [r for r in two if not (jml and (r.lo, r.hi) == (-6, 6))])]
    for i, (r, s) in enumerate(items):
        h.check('search %d of the same kind' % i, r.kind == s.kind and len(r.evals) == len(s.evals))
        if len(r.evals) > 1 and len(r.evals) == len(s.evals):
            values = {id(u): v.value for u, v in zip(s.evals, r.evals)}
            h.same_objective('item search %d' % i, s, lambda ev: h.sc(values[id(ev)]))
    _results(h, a[1], b[1], who)
    h.reach()


PERSONAL = ('Ability', 'Abilities')


def _results(h, a, b, who):
    if not isinstance(a, dict):
        return h.alike('result', a, b)
    h.check('same keys', list(a) == list(b))
    for k in a:
        if k in PERSONAL:
            _follow(h, a[k], b[k], who)
        elif k == 'LatentPDF' or k in ('AIC', 'BIC', 'LL') and None in who:    # these count the persons
            continue
        elif k in b:
            h.alike(k, a[k], b[k])


def _rows(h, x):
    v = h.lst(x)
    return v if isinstance(v[0], list) else [v]


def _follow(h, a, b, who):
    a, b = _rows(h, a), _rows(h, b)
    h.check('one ability per person', len(b[0]) == len(who))
    for r, s in zip(a, b):
        for j, p in enumerate(who):
            if p is not None:
                h.eq('ability of person %d' % p, r[p], s[j])


def abilities(h, g, entry, how):
    e, X, Y, who, fn = _run(h, g, entry, how)
    args = e['args'](h)
    k = dict(no_estimate=6.0) if e['k'].get('none') else dict(options=opt(h))

    def call(D):
        return lambda: fn(h.arr(D, int), *args, **dict(k))
    a, b, one, two, fresh = pair(h, call(X), call(Y), lambda r: True)
    h.check('same outcome', a[0] == b[0])
    if a[0] == 'raise':
        h.private('girth', 'call refused: %s' % a[1])
    h.check('a search for each person', fresh <= 1)
    _follow(h, a[1], b[1], who)
    h.reach()


def correlation(h, g, entry, how):
    e, X, Y, who, fn = _run(h, g, entry, how)

    def call(D):
        return lambda: fn(h.arr(D, int), start_val=1, stop_val=3)
    a, b, one, two, fresh = pair(h, call(X), call(Y), None)
    h.check('same outcome', a[0] == b[0])
    if a[0] == 'raise':
        h.private('girth.common', 'call refused: %s' % a[1])
    h.check('same searches', len(one) == len(two))
    h.alike('correlations', a[1], b[1])
    h.reach()


LUT, INIT = c36.LUT, c36.INIT
