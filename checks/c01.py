"""Missing-data tagging keeps every valid response and marks every other one."""
from .spec import INVALID

BOUNDS = '2x3 datasets, cells over finite alphabets (valid codes, invalid codes, the missing code), int64/int32/int8/uint8/float64 storage; valid lists of 1-3 codes; 3x140 with 3 free cells and 45 valid codes'


def configs(tier):
    out = []
    for dt in ('int64', 'int32', 'int8', 'uint8', 'float64', 'int16'):
        vals = (0, 1, 2, 7) if dt == 'uint8' else (-3, 0, 1, 2)
        for vn, valid in (('01', [0, 1]), ('1', [1]), ('102', [1, 0, 2])):
            out.append(dict(name='%s-valid%s' % (dt, vn), fn='tag', args=dict(dt=dt, vals=vals, valid=valid),
                            max_paths=600))
    out.append(dict(name='int64-withmissing', fn='tag', args=dict(dt='int64', vals=(INVALID, 0, 1), valid=[0, 1])))
    for dt in ('int64', 'int16', 'float64', 'int8'):
        out.append(dict(name='many-' + dt, fn='many', args=dict(dt=dt)))
    out.append(dict(name='nan', fn='nan'))
    out.append(dict(name='real-valued', fn='realv'))
    return out


def tag(h, g, dt, vals, valid, shape=(2, 3)):
    data = h.cats('x', shape, vals, dt)
    before = h.copy(data)
    out = g.tag_missing_data(data, valid)
    h.check('shape', h.shape(out) == shape)
    D, O = h.lst(before), h.lst(out)
    for i in range(shape[0]):
        for j in range(shape[1]):
            ok = h.any(*[D[i][j] == v for v in valid])
            h.check('kept or tagged %d,%d' % (i, j),
                    h.all(h.implies(ok, O[i][j] == D[i][j]), h.implies(h.neg(ok), O[i][j] == INVALID)))
    h.unchanged('input', before, data)
    h.reach()


def many(h, g, dt, n=3, m=140):
    """a large dataset, a long list of valid codes"""
    top = 120 if dt == 'int8' else 3000
    valid = [(7 * k) % 100 + (top - 110 if k % 9 == 0 else 0) for k in range(45)]
    X = [[(11 * i + 5 * j) % 100 for j in range(m)] for i in range(n)]
    for k, (i, j) in enumerate(((0, 0), (1, 70), (2, m - 1))):
        X[i][j] = h.cat('x%d' % k, (0, 1, valid[-1], valid[-2], 101, 119, -1))
    data = h.arr(X, dt)
    before = h.copy(data)
    O = h.lst(g.tag_missing_data(data, valid))
    for i in range(n):
        for j in range(m):
            ok = h.any(*[X[i][j] == v for v in valid])
            h.check('kept or tagged', h.all(h.implies(ok, O[i][j] == X[i][j]), h.implies(h.neg(ok), O[i][j] == INVALID)))
    h.unchanged('input', before, data)
    h.reach()


def nan(h, g):
    c = h.lst(h.cats('x', (1, 3), (0, 1, 5), float))[0]
    data = h.arr([[c[0], float('nan'), c[1]], [c[2], 1.0, float('nan')]])
    out = h.lst(g.tag_missing_data(data, [0, 1]))
    h.check('nan tagged', h.all(out[0][1] == INVALID, out[1][2] == INVALID, out[1][1] == 1))
    for v, o in ((c[0], out[0][0]), (c[1], out[0][2]), (c[2], out[1][0])):
        ok = h.any(v == 0, v == 1)
        h.check('kept', h.all(h.implies(ok, o == v), h.implies(h.neg(ok), o == INVALID)))
    h.reach()


def realv(h, g):
    data = h.reals('x', (2, 2), -3, 3)
    out = h.lst(g.tag_missing_data(data, [0, 1, 2]))
    D = h.lst(data)
    for i in range(2):
        for j in range(2):
            ok = h.any(*[D[i][j] == v for v in (0, 1, 2)])
            h.check('real cell', h.all(h.implies(ok, out[i][j] == D[i][j]),
                                       h.implies(h.neg(ok), out[i][j] == INVALID)))
    h.reach()
