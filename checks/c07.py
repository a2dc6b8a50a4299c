"""The difficulty look-up table: at grid discriminations the returned difficulty lies in the grid cell whose
marginal probabilities enclose the requested proportion (and is the grid difficulty when the proportion is a
table entry); between grid discriminations it is the linear interpolation, up to and including the top."""
from .spec import quad, active

BOUNDS = 'grids of 2-4 discriminations x 2-4 difficulties (ends symbolic or fixed), 1-3 active nodes of an 8-10 point rule, every discrimination inside the grid and every proportion'
ASSUMPTIONS = ['scipy.interpolate.interp1d (linear) is encoded from its documentation; grid values are taken to be distinct']


def configs(tier):
    w1, w2, w3 = dict(real_nodes=True), dict(real_nodes=True), dict(real_nodes=True)
    out = []
    for na, nb, w, s in ((2, 2, w1, 'a'), (3, 2, w2, 'a'), (3, 3, w2, 'b'), (4, 4, w3, 'c')):
        out.append(dict(name='cell-%dx%d-%s' % (na, nb, s), fn='cell', args=dict(na=na, nb=nb), world=w))
        out.append(dict(name='between-%dx%d-%s' % (na, nb, s), fn='between', args=dict(na=na, nb=nb, fixed=na > 2), world=w))
        out.append(dict(name='top-%dx%d-%s' % (na, nb, s), fn='top', args=dict(na=na, nb=nb), world=w))
    out.append(dict(name='table-2x3', fn='table', args=dict(na=2, nb=3), world=w3))
    out.append(dict(name='table-default', fn='table', args=dict(na=2, nb=2, default=True), world=w1))
    out.append(dict(name='entry-3x3', fn='entry', args=dict(na=3, nb=3), world=w2))
    out.append(dict(name='entry-default', fn='entry', args=dict(na=2, nb=3, default=True), world=w1))
    for side in ('low', 'high'):
        out.append(dict(name='outside-' + side, fn='outside', args=dict(na=2, nb=3, side=side), world=w2))
        out.append(dict(name='outside-end-' + side, fn='outend', args=dict(na=2, nb=3, side=side), world=w2))
    return out


def _opts(h, default=False, qn=8, fixed=False):
    if default:
        d = h.g.default_options()
        return None, d['quadrature_n'], d['quadrature_bounds'], d['distribution']
    lo, hi = h.choose('bounds', ((-2.5, 4.0), (-5.0, 1.5)))
    f = (lambda t: 0.4 / (1 + (t - 0.5) * (t - 0.5))) if fixed else h.uf('prior')
    return dict(quadrature_n=qn, quadrature_bounds=(lo, hi), distribution=f), qn, (lo, hi), f


def _build(h, g, na, nb, default=False, fixed=False):
    opt, qn, (lo, hi), f = _opts(h, default, fixed=fixed)
    a0, a1 = {2: (0.25, 2.25), 3: (0.5, 2.5), 4: (0.5, 3.5)}[na]
    b0, b1 = {2: (-3.0, 1.0), 3: (-3.0, 1.0), 4: (-4.0, 2.0)}[nb]
    if opt is None:
        look = g.create_beta_LUT((a0, a1, na), (b0, b1, nb))
    else:
        keep = dict(opt)
        look = g.create_beta_LUT((a0, a1, na), (b0, b1, nb), opt)
        h.check('options unchanged', opt == keep)
    A = [a0 + (a1 - a0) * i / (na - 1) for i in range(na)]
    B = [b0 + (b1 - b0) * i / (nb - 1) for i in range(nb)]
    xs, ws = active(*quad(h, g, qn, lo, hi))
    ws = [w * h.sc(f(x)) for x, w in zip(xs, ws)]
    return look, A, B, lambda a, b: sum(w * h.expit(a * (x - b)) for x, w in zip(xs, ws))


def cell(h, g, na, nb):
    look, A, B, P = _build(h, g, na, nb)
    i = h.choose('i', range(na))
    p = h.real('p', 0.001, 40)
    j = h.choose('j', range(nb - 1))
    h.assume(p <= P(A[i], B[j]) - 1e-4)
    h.assume(p >= P(A[i], B[j + 1]) + 1e-4)
    b = h.sc(look(A[i], p))
    h.check('difficulty within its cell', h.all(b >= B[j] - 1e-9, b <= B[j + 1] + 1e-9))
    h.reach()


def between(h, g, na, nb, fixed):
    look, A, B, P = _build(h, g, na, nb, fixed=fixed)
    i = h.choose('i', range(na - 1))
    a = h.real('a', A[i], A[i + 1])
    p = h.real('p', 0.001, 40)
    for k in (i, i + 1):
        h.assume(p <= P(A[k], B[0]) - 1e-4)
        h.assume(p >= P(A[k], B[-1]) + 1e-4)
    b = h.sc(look(a, p))
    d = (a - A[i]) / (A[i + 1] - A[i])
    h.eq('interpolated', b, (1 - d) * h.sc(look(A[i], p)) + d * h.sc(look(A[i + 1], p)))
    h.reach()


def top(h, g, na, nb):
    """the largest discrimination is part of the grid; values outside are refused"""
    look, A, B, P = _build(h, g, na, nb)
    p = h.real('p', 0.001, 40)
    h.assume(p <= P(A[-1], B[0]) - 1e-4)
    h.assume(p >= P(A[-1], B[-1]) + 1e-4)
    ok, b = h.outcome(look, A[-1], p)
    h.check('top of the grid is usable', ok == 'ok')
    if ok == 'ok':
        h.check('difficulty within the grid', h.all(h.sc(b) >= B[0] - 1e-9, h.sc(b) <= B[-1] + 1e-9))
    h.reach()


def entry(h, g, na, nb, default=False):
    look, A, B, P = _build(h, g, na, nb, default)
    i, j = h.choose('i', range(na)), h.choose('j', range(nb))
    # (the ends of the table are approached from inside)
    p = P(A[i], B[j]) + (-1e-9 if j == 0 else 1e-9 if j == nb - 1 else 0)
    b = h.sc(look(A[i], p))
    h.check('grid difficulty of a table entry', h.all(b >= B[j] - 1e-4, b <= B[j] + 1e-4))
    h.reach()


def table(h, g, na, nb, default=False):
    f = h.private('girth.utilities.look_up_table', '_array_LUT')
    al, be, th, w = h.reals('a', na, 0.2, 3), h.reals('b', nb, -3, 3), h.reals('t', 3), h.reals('w', 3, 0, 2)
    out = f(al, be, th, w)
    h.check('shape', h.shape(out) == (na, nb))
    O = h.lst(out)
    A, B, Th, W = h.lst(al), h.lst(be), h.lst(th), h.lst(w)
    for i in range(na):
        for j in range(nb):
            h.eq('marginal probability', O[i][j], sum(W[k] * h.expit(A[i] * (Th[k] - B[j])) for k in range(3)))
    h.reach()


def _outside(h, g, na, nb, side):
    look, A, B, P = _build(h, g, na, nb)
    i = h.choose('i', range(na))
    p = h.real('p', 1e-6, 60)
    for a in A:
        h.assume(p > P(a, B[0]) + 1e-4 if side == 'high' else p < P(a, B[-1]) - 1e-4)
    return h.sc(look(A[i], p)), B


def outside(h, g, na, nb, side):
    b, B = _outside(h, g, na, nb, side)
    h.eq('nearest end of the grid', b, B[0] if side == 'high' else B[-1])
    h.reach()


def outend(h, g, na, nb, side):
    b, B = _outside(h, g, na, nb, side)
    h.check('an end of the grid', h.any(b == B[0], b == B[-1]))
    h.reach()
