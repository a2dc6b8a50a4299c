"""Option validation: keys x symbolic values.

Integer/real option values are solver variables over a wide range; validity of the outcome is
compared with the documented domain for every value; unknown keys, wrong types, call histories
and mutation are separate scenarios."""
import math

BOUNDS = 'every key with symbolic integers in [-60,60], symbolic reals, booleans, None, strings, sequences, callables; all pairs of keys; sequences of 3 calls'

INTS = {'max_iteration': 1, 'quadrature_n': 8, 'hyper_quadrature_n': 8, 'number_of_samples': 5, 'num_processors': None}
BOOLS = ('use_LUT', 'estimate_distribution', 'initial_guess')
KEYS = list(INTS) + list(BOOLS) + ['distribution', 'quadrature_bounds']


def configs(tier):
    out = [dict(name='int-' + k, fn='ints', args=dict(key=k)) for k in INTS]
    out += [dict(name='bool-' + k, fn='bools', args=dict(key=k)) for k in BOOLS]
    out += [dict(name='bounds', fn='bounds'), dict(name='dist', fn='dist'), dict(name='defaults', fn='defaults'),
            dict(name='unknown', fn='unknown'), dict(name='notdict', fn='notdict'), dict(name='history', fn='history')]
    for i, a in enumerate(KEYS):
        out.append(dict(name='pairs-' + a, fn='pairs', args=dict(a=a)))
    out.append(dict(name='subset', fn='subset', max_paths=1200))
    out.append(dict(name='one-bad', fn='onebad', max_paths=400))
    return out


def bump(x):
    return 1.0


def same(h, name, got, want):
    h.check(name, got is want or type(got) == type(want) and not hasattr(got, 'd') and got == want)


def others_default(h, g, full, supplied):
    d = g.default_options()
    h.check('key set', set(full) == set(d))
    for k in d:
        if k in supplied:
            continue
        if k == 'distribution':
            x = 0.7
            h.eq('default distribution', h.sc(full[k](x)), math.exp(-x * x / 2) / math.sqrt(2 * math.pi))
        else:
            h.check('default ' + k, full[k] == d[k] and type(full[k]) == type(d[k]))


def ints(h, g, key):
    lo = INTS[key]
    v = h.ctx.int('v', -60, 60)
    opt = {key: v}
    st, r = h.outcome(g.validate_estimation_options, opt)
    valid = True if lo is None else (v >= lo)
    h.check('input kept', list(opt) == [key] and opt[key] is v)
    if key == 'number_of_samples':
        h.assume(h.neg(v == 5))       # documentation and limit disagree on exactly five
    if st == 'ok':
        h.check('accepted only when valid', valid)
        h.eq('value used', r[key], v)
        others_default(h, g, r, (key,))
    else:
        h.check('rejected only when invalid', h.neg(valid))
    for nm, bad in (('real', h.real('r', 8.5, 8.9)), ('none', None), ('str', '41'), ('list', [9]), ('fn', bump)):
        st, _ = h.outcome(g.validate_estimation_options, {key: bad})
        h.check('rejects ' + nm, st == 'raise')
    h.reach()


def bools(h, g, key):
    for v in (True, False):
        st, r = h.outcome(g.validate_estimation_options, {key: v})
        h.check('accepted', st == 'ok')
        if st == 'ok':
            h.check('used', r[key] is v)
            others_default(h, g, r, (key,))
    iv = h.ctx.int('v', -3, 3)
    for nm, bad in (('int', iv), ('real', h.real('r', 0, 1)), ('str', 'True'), ('list', [True]), ('fn', bump), ('none', None)):
        st, _ = h.outcome(g.validate_estimation_options, {key: bad})
        h.check('rejects ' + nm, st == 'raise')
    h.reach()


def bounds(h, g):
    a, b = h.real('a', -10, 10), h.real('b', -10, 10)
    for mk in (tuple, list):
        v = mk((a, b))
        st, r = h.outcome(g.validate_estimation_options, {'quadrature_bounds': v})
        ok = b > a
        h.check('outcome', h.all(h.implies(ok, st == 'ok'), h.implies(h.neg(ok), st == 'raise')))
        if st == 'ok':
            h.eq('lower', r['quadrature_bounds'][0], a)
            h.eq('upper', r['quadrature_bounds'][1], b)
            h.check('supplied object untouched', len(v) == 2 and v[0] is a and v[1] is b)
            others_default(h, g, r, ('quadrature_bounds',))
    for nm, bad in (('real', a), ('none', None), ('str', '12'), ('fn', bump), ('bool', True), ('dict', {0: 0, 1: 1})):
        st, _ = h.outcome(g.validate_estimation_options, {'quadrature_bounds': bad})
        h.check('rejects ' + nm, st == 'raise')
    h.reach()


def dist(h, g):
    st, r = h.outcome(g.validate_estimation_options, {'distribution': bump})
    h.check('accepted', st == 'ok' and r['distribution'] is bump)
    others_default(h, g, r, ('distribution',))
    for nm, bad in (('real', h.real('a')), ('none', None), ('str', 'x'), ('tuple', (1, 2)), ('bool', True)):
        st, _ = h.outcome(g.validate_estimation_options, {'distribution': bad})
        h.check('rejects ' + nm, st == 'raise')
    h.reach()


def defaults(h, g):
    for a in (None, {}):
        r = g.validate_estimation_options(a) if a is not None else g.validate_estimation_options()
        others_default(h, g, r, ())
    d = g.default_options()
    x = h.real('x', -4, 4)
    h.eq('standard normal', h.sc(d['distribution'](x)), h.exp(-x * x / 2) / math.sqrt(2 * math.pi))
    h.check('domains', all(isinstance(d[k], int) and (lo is None or d[k] >= lo) for k, lo in INTS.items())
            and all(isinstance(d[k], bool) for k in BOOLS) and d['quadrature_bounds'][0] < d['quadrature_bounds'][1])
    h.reach()


def unknown(h, g):
    for bad in ('quadrature', 'Max_iteration', 'max_iteration ', '', 3, None, 'use_lut', 'n_processors'):
        st, _ = h.outcome(g.validate_estimation_options, {bad: 5})
        h.check('unknown %r' % (bad,), st == 'raise')
        st, _ = h.outcome(g.validate_estimation_options, {'max_iteration': 5, bad: True})
        h.check('unknown with known %r' % (bad,), st == 'raise')
    h.reach()


def notdict(h, g):
    for bad in ([('max_iteration', 3)], 'max_iteration', 7, (1, 2), {'max_iteration'}, bump):
        st, _ = h.outcome(g.validate_estimation_options, bad)
        h.check('not a dict', st == 'raise')
    h.reach()


def _valid(h, k, tag):
    if k in INTS:
        return h.ctx.int('v_%s%s' % (k, tag), 8, 60)
    if k in BOOLS:
        return h.choose('v_%s%s' % (k, tag), (True, False))
    if k == 'distribution':
        return bump
    a = h.real('qa' + tag, -6, -1)
    b = h.real('qb' + tag, -0.5, 6)
    return (a, b)


def pairs(h, g, a):
    for b in KEYS:
        if b == a:
            continue
        opt = {a: _valid(h, a, ''), b: _valid(h, b, '')}
        va, vb = opt[a], opt[b]
        r = g.validate_estimation_options(opt)
        h.check('kept objects', r[a] is va and r[b] is vb and list(opt) == [a, b])
        others_default(h, g, r, (a, b))
    h.reach()


def subset(h, g):
    """every subset of the keys at once"""
    opt = {}
    for k in KEYS:
        if h.choose('has_' + k, (False, True)):
            opt[k] = {'distribution': bump, 'quadrature_bounds': (-2.0, 3.0)}.get(k, k not in ('use_LUT', 'initial_guess') if k in BOOLS else 11)
    n = dict(opt)
    r = g.validate_estimation_options(opt)
    h.check('supplied', all(r[k] is n[k] for k in n) and opt == n)
    others_default(h, g, r, tuple(n))
    h.reach()


def onebad(h, g):
    """one bad value among good ones, in any position"""
    bad = h.choose('bad', KEYS)
    pos = h.choose('pos', (0, 1, 2))
    good = [k for k in KEYS if k != bad][:4]
    vals = [(k, {'distribution': bump, 'quadrature_bounds': (-2.0, 3.0)}.get(k, True if k in BOOLS else 11)) for k in good]
    vals.insert(pos * 2, (bad, '?'))
    st, _ = h.outcome(g.validate_estimation_options, dict(vals))
    h.check('rejected', st == 'raise')
    h.reach()


def history(h, g):
    v = h.ctx.int('v', 1, 60)
    a = h.real('a', -6, -1)
    first = g.validate_estimation_options({'max_iteration': v, 'quadrature_bounds': [a, 4.0], 'distribution': bump, 'use_LUT': False})
    others_default(h, g, g.validate_estimation_options(), ())
    h.outcome(g.validate_estimation_options, {'quadrature_n': 10, 'max_iteration': -1})
    others_default(h, g, g.validate_estimation_options(None), ())
    first['quadrature_n'] = 999
    first['quadrature_bounds'][0] = -99
    others_default(h, g, g.validate_estimation_options({'use_LUT': True}), ('use_LUT',))
    d = g.default_options()
    d['max_iteration'] = 3
    others_default(h, g, g.validate_estimation_options({}), ())
    again = g.validate_estimation_options(g.validate_estimation_options({'max_iteration': v}))
    h.check('idempotent', again['max_iteration'] is v)
    others_default(h, g, again, ('max_iteration',))
    h.reach()
