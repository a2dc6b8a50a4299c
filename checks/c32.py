"""Reverse scoring: cell values, missing cells and the mask are symbolic; every returned cell is compared
with max+1-x / the original value, twice-reversal with the original."""
from .spec import INVALID

BOUNDS = '1-4 items x 1-4 persons, cells arbitrary integers in [-2, 8] or missing (and arbitrary reals), every item mask, any maximum in [1, 9]; storage int64, int16, int8 without missing, float64, float32, uint8 without missing; also 70 items or 200 persons with one free cell'


def configs(tier):
    out = []
    for dt in ('int64', 'float64', 'int32', 'float32'):
        out.append(dict(name='cells-' + dt, fn='cells', args=dict(n=3, m=3, dt=dt), merge=True))
    out.append(dict(name='default-max', fn='cells', args=dict(n=2, m=2, dt='int64', top=None), merge=True))
    out.append(dict(name='wide', fn='cells', args=dict(n=1, m=4, dt='int64'), merge=True))
    out.append(dict(name='tall', fn='cells', args=dict(n=4, m=1, dt='int64'), merge=True))
    out.append(dict(name='no-missing-int8', fn='cells', args=dict(n=2, m=2, dt='int8', miss=False, top=5), merge=True))
    out.append(dict(name='no-missing-uint8', fn='cells', args=dict(n=2, m=2, dt='uint8', miss=False, top=7), merge=True))
    out.append(dict(name='int-mask-free', fn='reals', args=dict(n=2, m=3)))
    out += [dict(name='many-%dx%d' % s, fn='many', args=dict(n=s[0], m=s[1]), merge=True) for s in ((3, 200), (70, 4))]
    for bad in (1, 3, 5):
        out.append(dict(name='mismatch-%d' % bad, fn='mismatch', args=dict(k=bad)))
    if tier == 'thorough':
        out.append(dict(name='big', fn='cells', args=dict(n=6, m=5, dt='int64'), merge=True))
    return out


def _run(h, g, data, mask, top):
    return g.reverse_score(data, mask) if top is None else g.reverse_score(data, mask, top)


def cells(h, g, n, m, dt, top='sym', miss=True):
    lo = 0 if dt == 'uint8' else -2
    hi = 7 if dt == 'uint8' else 8
    data = h.cats('x', (n, m), tuple(range(lo, hi + 1)) + ((INVALID,) if miss else ()), dtype=dt)
    mask = [bool(h.choose('m%d' % i, (0, 1))) for i in range(n)]
    mk = h.arr(mask, bool)
    t = h.ctx.int('top', 1, 9) if top == 'sym' else top
    tv = 5 if t is None else t
    before, bmask = h.copy(data), h.copy(mk)
    out = _run(h, g, data, mk, t)
    h.check('shape', h.shape(out) == (n, m))
    h.check('dtype', out.dtype == before.dtype)
    X, O = h.lst(before), h.lst(out)
    for i in range(n):
        for j in range(m):
            x = X[i][j]
            want = h.ite(x == INVALID, INVALID, tv + 1 - x) if mask[i] else x
            h.eq('cell', O[i][j], want)
    h.unchanged('data', before, data)
    h.unchanged('mask', bmask, mk)
    if top == 'sym':
        again = _run(h, g, out, mk, t)
        h.eq('twice', again, before)
        h.unchanged('first result', h.arr(O, dt), out)
    h.reach()


def many(h, g, n, m):
    X = [[(i * 3 + j * j) % 7 + 1 if (i + 2 * j) % 11 else INVALID for j in range(m)] for i in range(n)]
    X[n // 2][m // 2] = h.lst(h.cats('x', 1, tuple(range(-2, 9)) + (INVALID,)))[0]
    mask = [i % 3 == 0 or i == n // 2 for i in range(n)]
    t = h.ctx.int('top', 1, 300)
    data = h.arr(X, int)
    before = h.copy(data)
    O = h.lst(_run(h, g, data, h.arr(mask, bool), t))
    for i in range(n):
        for j in range(m):
            h.eq('cell', O[i][j], h.ite(X[i][j] == INVALID, INVALID, t + 1 - X[i][j]) if mask[i] else X[i][j])
    h.unchanged('data', before, data)
    h.reach()


def reals(h, g, n, m):
    V = [[h.real('x%d_%d' % (i, j), -300, 300) for j in range(m)] for i in range(n)]
    M = [[bool(h.choose('q%d_%d' % (i, j), (0, 1))) if i == 0 else j == 1 for j in range(m)] for i in range(n)]
    X = [[INVALID if M[i][j] else V[i][j] for j in range(m)] for i in range(n)]
    data = h.arr(X)
    before = h.copy(data)
    mask = [bool(h.choose('m%d' % i, (0, 1))) for i in range(n)]
    t = h.real('top', 0, 900)
    out = h.lst(g.reverse_score(data, h.arr(mask, bool), max_val=t))
    for i in range(n):
        for j in range(m):
            h.eq('cell', out[i][j], t + 1 - X[i][j] if mask[i] and not M[i][j] else X[i][j])
    h.unchanged('data', before, data)
    h.reach()


def mismatch(h, g, k):
    """a mask that does not have one entry per item is refused"""
    data = h.cats('x', (4, 3), (1, 2, 3, INVALID))
    before = h.copy(data)
    st, _ = h.outcome(g.reverse_score, data, h.arr([True] * k, bool), 3)
    h.check('refused', st == 'raise')
    h.unchanged('data', before, data)
    h.reach()
