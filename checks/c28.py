"""Bootstrap errors.  The model is a recorder returning arbitrary parameters; its datasets are compared with person
resamples of the given data, the reported statistics with those of the values it returned."""
from .spec import INVALID

BOUNDS = '2-5 resamples over 1-4 processes of 2-3 persons, estimates of every shape the models return (scalar, per item, per threshold with unused entries, per factor), every resample; also 48 resamples, 12 processes, 9 persons'
ASSUMPTIONS = ['parameter values of the resamples are arbitrary within a given rank order per parameter (all values distinct)']

RANKS = [(0, 1, 2, 3, 4), (3, 1, 4, 0, 2), (4, 3, 2, 1, 0), (1, 4, 0, 2, 3)]


def configs(tier):
    out = []
    for procs, its in ((1, 2), (1, 3), (2, 2), (2, 3), (2, 5), (3, 2), (4, 3), (3, 5)):
        out.append(dict(name='%d-%d' % (procs, its), fn='boot', args=dict(procs=procs, its=its, shape='item', given=its != 3), max_paths=20, merge=True))
    for shape in ('scalar', 'one', 'threshold', 'factor', 'one-threshold'):
        for procs in (1, 2):
            out.append(dict(name='%s-%d' % (shape, procs), fn='boot', args=dict(procs=procs, its=3, shape=shape, given=procs == 2), max_paths=20, merge=True))
    out.append(dict(name='many-resamples', fn='boot', args=dict(procs=3, its=48, shape='threshold', given=True), max_paths=20, merge=True))
    out.append(dict(name='many-processes', fn='boot', args=dict(procs=12, its=26, shape='item', given=False), max_paths=20, merge=True))
    out.append(dict(name='many-persons', fn='boot', args=dict(procs=2, its=2, shape='item', given=True, persons=9), max_paths=100, merge=True))
    out.append(dict(name='seeds', fn='seeds', args={}, merge=True))
    if tier == 'thorough':
        for procs in (1, 2, 3, 5):
            for shape in ('item', 'threshold', 'factor'):
                out.append(dict(name='t-%s-%d' % (shape, procs), fn='boot', args=dict(procs=procs, its=5, shape=shape, given=False, persons=4), max_paths=20, merge=True))
    return out


SHAPES = dict(scalar=((), (2,)), item=((2,), (2,)), one=((1,), (1,)), threshold=((2,), (2, 2)), factor=((2, 2), (2,)))
SHAPES['one-threshold'] = ((1,), (1, 3))


def _cells(shape):
    out = [()]
    for k in shape:
        out = [p + (i,) for p in out for i in range(k)]
    return out


def _build(h, shape, vals):
    if shape == ():
        return vals[()]
    return h.arr([_build2(shape[1:], vals, (i,)) for i in range(shape[0])])


def _build2(shape, vals, pre):
    return [_build2(shape[1:], vals, pre + (i,)) for i in range(shape[0])] if shape else vals[pre]


def _get(x, c):
    for i in c:
        x = x[i]
    return x


def _order(q, its):
    return [r for r in RANKS[q % 4] if r < its] if its <= 5 else [(7 * k + 3 * q) % its for k in range(its)]


class Model:
    def __init__(self, h, shape, its):
        self.h, self.shape = h, shape
        self.calls, self.values = [], []
        self.pool = {}
        for name, sh in zip('ab', SHAPES[shape]):
            for q, c in enumerate(_cells(sh)):
                v, ladder = h.real('%s%s' % (name, c), -3, 3), []
                for k in range(its):
                    ladder.append(v)
                    v = v + (0.25 if its > 5 else h.real('g%s%s%d' % (name, c, k), 0.1, 1))
                self.pool[name, c] = [ladder[r] for r in _order(q, its)]
        self.nan = ('threshold' in shape)

    def __call__(self, dataset, options=None):
        h = self.h
        k = len(self.calls)
        self.calls.append((h.lst(dataset), options))
        if getattr(self, 'first', None):
            val = self.first
            self.first = None
        else:
            val = {key: v[len(self.values) % len(v)] for key, v in self.pool.items()}
            self.values.append(val)
        return self.pack(val)

    def pack(self, val):
        h = self.h
        sa, sb = SHAPES[self.shape]
        last = _cells(sb)[-1]
        b = {c: float('nan') if self.nan and c == last else val['b', c] for c in _cells(sb)}
        return {'Discrimination': _build(h, sa, {c: val['a', c] for c in _cells(sa)}), 'Difficulty': _build(h, sb, b)}


def boot(h, g, procs, its, shape, given, persons=3):
    X = [list(range(persons)), [h.choose('x%d' % j, (1, INVALID)) if j == 0 and persons < 9 else j % 2 for j in range(persons)]]
    d = h.arr(X, int)
    before = h.copy(d)
    model = Model(h, shape, its)
    est = {k: h.real('est%s%s' % k, -3, 3) for k in model.pool}
    opt = dict(max_iteration=17)
    keep = dict(opt)
    kw = dict(bootstrap_iterations=its, n_processors=procs, options=opt, seed=7)
    if given:
        sol = model.pack(est)
        out = g.standard_errors_bootstrap(d, model, solution=sol, **kw)
        h.check('given solution is reported', out['Solution'] is sol)
    else:
        model.first = est
        out = g.standard_errors_bootstrap(d, model, **kw)
        h.check('solution from the whole dataset', model.calls and model.calls[0][0] == X)
        model.calls.pop(0)
    h.check('options unchanged', opt == keep)
    h.check('fits', len(model.calls) == its)
    if len(model.calls) != its:
        return
    used = [r for r in h.w.rngs if r.calls]
    seeds = [repr(getattr(r.seed, '__dict__', r.seed)) for r in h.w.rngs]
    h.check('independent streams', len(set(seeds)) == len(seeds))
    draws = [c for r in used for c in r.calls]
    if all(c[0] == 'int' for c in draws):
        h.check('every person can be drawn', all(c[2] == 0 and c[3] == persons - 1 for c in draws))
    cols = []
    for D, o in model.calls:
        h.check('model options', o is not None and o['max_iteration'] == 17)
        h.check('size of a resample', len(D) == 2 and all(len(r) == persons for r in D))
        for j in range(len(D[0])):
            cols.append(D[0][j])
            if hasattr(D[0][j], 'd'):
                h.check('persons are resampled whole', h.any(*[h.all(D[0][j] == X[0][k], D[1][j] == X[1][k]) for k in range(persons)]))
            else:
                h.check('persons are resampled whole', any(D[0][j] == X[0][k] and D[1][j] == X[1][k] for k in range(persons)))
    if all(hasattr(c, 'd') for c in cols):
        h.check('separate draws', len({c.key for c in cols}) == len(cols))
    for name, key, sh in (('a', 'Discrimination', SHAPES[shape][0]), ('b', 'Difficulty', SHAPES[shape][1])):
        cells = _cells(sh)
        ci, se, bias = [out[s][key] for s in ('95th CI', 'Standard Errors', 'Bias')]
        h.check('two limits', len(ci) == 2)
        real = sh or (1,)
        for v in (ci[0], ci[1], se, bias):
            h.check('shape of the estimate', h.shape(v) in (real, sh))
        L = [h.lst(v) for v in (ci[0], ci[1], se, bias)]
        for c in cells:
            got = [_get(v, c) if sh or not isinstance(v, list) else v[0] for v in L]
            if name == 'b' and model.nan and c == cells[-1]:
                h.check('unused entries', all(not hasattr(v, 'd') and v != v for v in got))
                continue
            v = model.pool[name, c]
            order = _order(cells.index(c), its)
            srt = [v[order.index(k)] for k in range(its)]

            def pct(q):
                p = (its - 1) * q / 100
                k = int(p)
                return srt[k] + (srt[min(k + 1, its - 1)] - srt[k]) * (p - k)
            mu = sum(v) / its
            h.eq('lower limit', got[0], pct(2.5))
            h.eq('upper limit', got[1], pct(97.5))
            h.eq('standard error', got[2], h.sqrt(sum((u - mu) ** 2 for u in v) / (its - 1)))
            h.eq('bias', got[3], mu - est[name, c])
    h.unchanged('data', before, d)
    h.reach()


def seeds(h, g):
    """streams depend on the seed, and only on it"""
    d = h.arr([[0, 1, 2], [1, 0, 1]], int)
    got = []
    for s in (7, 7, 8):
        n = len(h.w.rngs)
        model = Model(h, 'item', 4)
        g.standard_errors_bootstrap(d, model, bootstrap_iterations=4, n_processors=2, solution=model.pack({k: 0.0 for k in model.pool}), seed=s)
        got.append([repr(getattr(r.seed, '__dict__', r.seed)) for r in h.w.rngs[n:]])
    h.check('same seed, same streams', got[0] == got[1])
    h.check('another seed, other streams', not set(got[0]) & set(got[2]))
    h.reach()
