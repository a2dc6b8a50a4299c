"""Every public entry point is called with its arrays stored plainly (64 bit, row by row) and stored in another way that
holds the same values: narrower integers, whole numbers as integers, column by column, views of larger arrays, read only.
Searches and seeded generators give both calls the same (arbitrary) answers; objectives and results must agree."""
import numpy as rnp

from symx.sarray import SymArray
from .spec import INVALID
from . import c36, c25

BOUNDS = '2-3 items x 3-5 persons (int8 also: 64 copies of each person, fixed cells) (free cells in all categories and missing), arbitrary real parameters (whole numbers where stored as integers), 1 sweep; int8, int16, int32, whole-number parameters as int64 and int32, column-major, strided and reversed views, read-only arrays'
ASSUMPTIONS = ['searches and seeded generators give equal questions equal answers', 'one active quadrature node', 'the same numbers in the same order: values that do not fit the narrower type are out of the scope']

LUT, INIT = c36.LUT, c36.INIT
LAYOUTS = ('columns', 'strided', 'reversed', 'locked')
WIDTHS = ('int8', 'int16', 'int32')
DICH = ('convert_responses_to_kernel_sign', 'get_true_false_counts', 'mml_approx', 'mml_approx_scalar', 'trim_response_set_and_counts', 'ability_eap', 'ability_map', 'ability_mle',
        'ability_3pl_eap', 'ability_3pl_map', 'ability_3pl_mle', 'rasch_mml', 'onepl_mml', 'twopl_mml', 'threepl_mml', 'rasch_jml', 'onepl_jml', 'twopl_jml', 'rasch_conditional')
SKIP = ('default_options', 'validate_estimation_options', 'create_beta_LUT')


def configs(tier):
    out = []
    for name, (f, types, where, world, paths, over, cost) in c36.ENTRIES.items():
        if name in SKIP:
            continue
        w = dict(active=[3], probes={0: 1, 1: 0})
        w.update(world or {})
        base = dict(fn='stored', world=w, max_paths=paths, cost=cost, overrides=over, budget=60, merge=name in ('standard_errors_bootstrap', 'grm_mml_eap'))
        for how in LAYOUTS:
            if tier == 'quick' and (how == 'reversed' or cost > 1 and how == 'strided'):
                continue
            out.append(dict(base, name='%s-%s' % (name, how), args=dict(entry=name, how=how)))
        if int in types:
            for how in WIDTHS:
                if tier == 'quick' and (how == 'int16' or cost > 1 and how == 'int32'):
                    continue
                out.append(dict(base, name='%s-%s' % (name, how), args=dict(entry=name, how=how)))
            if name not in ('grm_jml', 'pcm_jml', 'standard_errors_bootstrap') and (tier == 'thorough' or not name.startswith('multid')):
                out.append(dict(base, name='%s-many-int8' % name, args=dict(entry=name, how='int8', many=64)))
        if name in DICH:        # documented as matrices of true and false
            out.append(dict(base, name='%s-bool' % name, args=dict(entry=name, how='bool')))
            if name in ('ability_eap', 'rasch_mml', 'onepl_mml'):
                out.append(dict(base, name='%s-bool-2' % name, args=dict(entry=name, how='bool', two=True)))
        out.append(dict(base, name='%s-whole' % name, args=dict(entry=name, how='whole')))
        if tier == 'thorough':
            out.append(dict(base, name='%s-whole32' % name, args=dict(entry=name, how='whole32')))
    return out


class _NoMiss:
    """h, without missing cells"""

    def __init__(self, h, two=False, many=0):
        self._h, self._two, self._many = h, two, many

    def __getattr__(self, n):
        return getattr(self._h, n)

    def choose(self, name, values):
        v = [u for u in values if not (isinstance(u, int) and u == INVALID)]
        if self._many:
            return v[-1]
        return self._h.choose(name, v)

    def arr(self, nested, t=float):
        def fill(x):
            return [fill(v) for v in x] if isinstance(x, (list, tuple)) else 1 if isinstance(x, int) and x == INVALID else x
        v = fill(nested)
        if self._two and t is int and isinstance(v[0], list):      # two persons
            v = [r[:2] for r in v]
        if self._many and t is int and isinstance(v[0], list):     # more persons than the narrow type can count
            v = [r * self._many for r in v]
        return self._h.arr(v, t)


class _Whole:
    """h, with whole numbers for parameters"""

    def __init__(self, h):
        self._h, self._n = h, 0

    def __getattr__(self, n):
        return getattr(self._h, n)

    def real(self, name, lo=-3.0, hi=3.0):
        if name in ('lo', 'hi') or int(hi) < lo:
            return self._h.real(name, lo, hi)
        self._n += 1
        vals = [v for v in range(int(lo) - 1, int(hi) + 2) if lo <= v <= hi]
        return float(vals[(self._n * 5 + 1) % len(vals)]) if vals else self._h.real(name, lo, hi)


def _store(x, how):
    sym = isinstance(x, SymArray)
    a = x.a if sym else x
    if how in ('whole', 'whole32') or how in WIDTHS + ('bool',):
        to = rnp.dtype(dict(whole='int64', whole32='int32').get(how, how))
        v = a.ravel().tolist()
        if x.dtype.kind != ('f' if how.startswith('whole') else 'i') or not all(isinstance(u, (int, float)) and u == int(u) for u in v if u == u) or any(u != u for u in v):
            return x
        lo, hi = (0, 1) if how == 'bool' else (rnp.iinfo(to).min, rnp.iinfo(to).max)
        if v and (min(v) < lo or max(v) > hi):
            return x
        if not sym:
            return a.astype(to)
        b = rnp.empty(a.shape, object)
        b[...] = a
        for ix in rnp.ndindex(*a.shape):
            b[ix] = (bool if how == 'bool' else int)(a[ix])
        return SymArray(b, to)
    if how == 'columns':
        b = rnp.array(a, order='F')
        b = b if b.ndim > 1 else _spread(a, 2)
    elif how == 'strided':
        b = _spread(a, 3)
    elif how == 'reversed':
        b = rnp.array(a[tuple([slice(None, None, -1)] * a.ndim)])[tuple([slice(None, None, -1)] * a.ndim)]
    else:
        b = rnp.array(a)
        b.flags.writeable = False
    return SymArray(b, x.dtype) if sym else b


def _spread(a, k):
    """a view of every k-th entry of a larger array"""
    big = rnp.empty(tuple(k * n for n in a.shape), a.dtype)
    big[...] = rnp.nan if a.dtype.kind == 'f' else 1
    v = big[tuple([slice(1, None, k)] * a.ndim)]
    v[...] = a
    return v


def _other(x, how):
    if isinstance(x, dict):
        return {k: _other(v, how) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(_other(v, how) for v in x)
    return _store(x, how) if isinstance(x, (SymArray, rnp.ndarray)) else x


def stored(h, g, entry, how, two=False, many=0):
    f, types, where, _, _, over, _ = c36.ENTRIES[entry]
    hh = _NoMiss(h, two, many) if how in ('int8', 'int16', 'bool') else _Whole(h) if how.startswith('whole') else h
    (args, kw), _ = f(hh, types[0] if how in WIDTHS + ('bool',) else types[-1])
    fn = getattr(g.mod(where), c36.NAMES.get(entry, entry))
    oargs, okw = _other(args, how), _other(kw, how)
    n = len(h.w.records)

    def call(a, k):
        def run():
            if over:
                c36._reset(h)
            h.w.choose = c25._choose(h) if entry.startswith('multidimensional_') and over else None
            return h.outcome(fn, *a, **k)
        return run
    a, b = h.again(call(args, kw), None, call(oargs, okw))
    if how.startswith('whole') and entry == 'entropy' and b[0] == 'raise':     # integers are refused, not misread
        return h.reach()
    h.check('same outcome', a[0] == b[0])
    recs = h.w.records[n:]
    half = len(recs) // 2
    for i, (r, s) in enumerate(zip(recs[:half], recs[half:])):
        h.check('search %d of the same kind' % i, r.kind == s.kind and len(r.evals) == len(s.evals))
        for u, v in zip(r.evals, s.evals):
            h.alike('objective of search %d' % i, v.value, u.value)
    if a[0] == b[0] == 'ok':
        h.loose_types = True
        h.alike('same result', a[1], b[1])
    h.reach()
