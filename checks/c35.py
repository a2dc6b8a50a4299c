"""Factor extraction and sparsifying rotation.  Eigen/singular value decompositions are uninterpreted functions
of the matrix they receive; update formulas, objectives, gradients and returned values are compared with an
independent statement of them."""
BOUNDS = 'maximum likelihood: 2x2 correlation matrices with any decomposition, 2x2 with any starting variances and 3x3, 4x4 positive definite matrices (by 1-2 entries of the triangular factor) with two fixed decompositions, 1-2 factors, one iteration; fixed matrices up to 4x4 with any tolerance and up to 10 iterations (130 with tolerance 0), unique variances down to their floor, with and without guess; minimum rank: 2x2 .. 4x4, 1-2 factors; sparsifying: 1-4 items x 1-3 factors, arbitrary alpha'
ASSUMPTIONS = ['the optimisers return an arbitrary point; optimality is their contract',
               'linalg.ldl/eigh/svd/cond are uninterpreted functions of their argument; inverse and Cholesky factor are encoded exactly up to 3x3']


def configs(tier):
    out = []
    out.append(dict(name='ml-2-1', fn='mlfa', args=dict(n=2, k=1, guess=True), cost=9))
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 2)):
        for basis in (0, 1):
            if (n, basis) in ((4, 1),) or (n, k, basis) == (3, 1, 0):
                continue        # not decided within minutes
            out.append(dict(name='ml-basis%d-%d-%d' % (basis, n, k), fn='mlfa', args=dict(n=n, k=k, guess=True, basis=basis), overrides='EIGH', cost=6))
    out.append(dict(name='ml-basis-start', fn='mlstart', args=dict(n=3, k=1), overrides='EIGH', cost=6))
    for n, k, st in ((2, 1, 3), (3, 1, 4), (4, 2, 2), (3, 1, 10)):
        for guess in (False, True):
            out.append(dict(name='ml-loop-%d-%d-%d-%s' % (n, k, st, guess), fn='mlfa', args=dict(n=n, k=k, guess=guess, steps=st, fixed=True)))
    for name, st in (('small', 2), ('small', 3), ('small', 6), ('small2', 6), ('slow', 130), ('slow', None)):
        for guess in (False, True):
            out.append(dict(name='ml-%s-%s-%s' % (name, st, guess), fn='mlfa', args=dict(n=3, k=1, guess=guess, steps=st, fixed=name)))
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 2)):
        for guess in (False, True):
            out.append(dict(name='mr-%d-%d%s' % (n, k, '-guess' if guess else ''), fn='mrfa', args=dict(n=n, k=k, guess=guess), cost=3))
    for n, k in ((2, 2), (3, 2), (1, 2), (4, 2), (3, 3)):
        for mode in ('guess', 'random', 'orthogonal') + (('default', 'orthogonal-large', 'orthogonal-guess') if k == 2 and n < 4 else ()):
            out.append(dict(name='sparse-%dx%d-%s' % (n, k, mode), fn='sparse', args=dict(n=n, k=k, mode=mode), cost=2))
    return out


def _sym(h, n):
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            A[i][j] = A[j][i] = h.real('r%d_%d' % (i, j), 0.2 if n < 4 else 0.1, 0.45)
        A[i][i] = 1.0
    return A


_E = [None, None, 0]
BASES = [  # (ascending eigenvalues, eigenvectors by column), rational and otherwise arbitrary
    ((0.5, 0.75, 2.0, 4.0), ((0.25, -0.5, 0.75, 0.5), (0.5, 0.25, -0.25, 0.75), (0.5, 0.5, 0.5, 0.25), (-0.5, 0.75, 0.25, 0.375))),
    ((0.25, 0.5, 4.0, 8.0), ((-0.5, 0.5, 0.5, -0.25), (0.75, 0.25, 0.5, 0.5), (0.25, 0.625, -0.5, 0.75), (0.125, 0.5, 0.75, 0.625))),
]


class _Proxy:
    def __init__(self, orig, **k):
        self._o = orig
        self.__dict__.update(k)

    def __getattr__(self, n):
        return getattr(self._o, n)


def _np(orig):
    def eigh(a, *x, **k):
        if _E[0] is None:
            return orig.linalg.eigh(a, *x, **k)
        _E[2] += 1
        return _E[0].copy(), _E[1].copy()
    return _Proxy(orig, linalg=_Proxy(orig.linalg, eigh=eigh))


EIGH = {'girth.factoranalysis.maximum_likelihood': {'np': _np}}


def _basis(h, n, basis):
    w, v = BASES[basis]
    w, v = list(w[4 - n:]), [list(r[4 - n:]) for r in v[:n]]
    _E[0], _E[1], _E[2] = h.arr(w), h.arr(v), 0
    return w, v


# unique variances that shrink to their floor; an uncorrelated third item, to which the search converges slowly
MATRICES = {'small': [[1.0, 0.8, 0.7], [0.8, 1.0, 0.5], [0.7, 0.5, 1.0]],
            'small2': [[1.0, 0.9, 0.5], [0.9, 1.0, 0.4], [0.5, 0.4, 1.0]],
            'slow': [[1.0, 0.5, 0.0625], [0.5, 1.0, 0.0625], [0.0625, 0.0625, 1.0]]}


def mlstart(h, g, n, k):
    """without a guess the unique variances start from the principal component residuals: the first update
    is the one a caller gets by supplying them"""
    A = _sym(h, n)
    w, v = g.np.linalg.eigh(h.arr(A))
    w, v = h.lst(w), h.lst(v)
    start = [A[i][i] - sum(w[q] * v[i][q] * v[i][q] for q in range(n - k, n)) for i in range(n)]
    for q in range(n - k, n):
        h.assume(w[q] > 0.05)
    for p in start:
        h.assume(p > 0.05)
    _basis(h, n, 0)
    a = g.maximum_likelihood_factor_analysis(h.arr(A), k, tolerance=0.0, max_iter=1)
    if not _E[2]:
        h.private('girth.factoranalysis.maximum_likelihood', 'numpy.linalg.eigh not used')
    b = g.maximum_likelihood_factor_analysis(h.arr(A), k, tolerance=0.0, max_iter=1, initial_guess=h.arr(start))
    for x, y in zip(a, b):
        h.eq('start', x, y)
    h.reach()


def _gram(h, n):
    """arbitrary positive definite matrix, by its triangular factor"""
    # a subset of the entries is symbolic (the exact update formulas are of high degree in them)
    free = ((1, 0), (n - 1, n - 2)) if n == 3 else ((n - 1, 0),)
    C = [[(h.real('c%d_%d' % (i, j), -0.5, 0.5) if (i, j) in free else (0.25, -0.125, 0.375)[(i + j) % 3]) if j < i else
          (h.real('c%d' % i, 0.5, 1) if (i, j) in free else 0.75) if j == i else 0 for j in range(n)] for i in range(n)]
    return [[sum(C[i][q] * C[j][q] for q in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]


def mlfa(h, g, n, k, guess, steps=1, basis=None, fixed=False):
    _E[0] = None
    if basis is not None:
        _basis(h, n, basis)
    A = _sym(h, n) if n == 2 else _gram(h, n)
    if fixed:
        A = [[1.0 if i == j else (0.4, 0.5, 0.3)[(i * j + i + j) % 3] for j in range(n)] for i in range(n)]
        if n == 4:
            A = [[1.0, 0.5, 0.125, 0.25], [0.5, 1.0, 0.2, 0.125], [0.125, 0.2, 1.0, 0.4], [0.25, 0.125, 0.4, 1.0]]
    if fixed in MATRICES:
        A = MATRICES[fixed]
    a = h.arr(A)
    before = h.copy(a)
    kw = {}
    if guess:
        u0 = h.arr((([0.25, 0.36] if n == 2 else [0.25, 0.0625, 0.25, 1.0]) if basis is None or n > 2 else [h.real('u%d' % i, 0.2, 0.6) for i in range(n)])[:n])
        b0 = h.copy(u0)
        kw['initial_guess'] = u0
        psi = h.lst(u0)
    else:
        w, v = g.np.linalg.eigh(a)
        w, v = h.lst(w), h.lst(v)
        psi = [A[i][i] - sum(w[q] * v[i][q] * v[i][q] for q in range(n - k, n)) for i in range(n)]
        for p in psi:
            h.assume(p > 0.05)
    psi = list(psi)
    tol = 0.0 if fixed == 'slow' else h.real('tol', 1e-9, 0.5) if fixed else 0.0
    if steps is None:           # documented: tolerance 1e-7, 100 iterations
        steps, tol = 100, 1e-7
        out = g.maximum_likelihood_factor_analysis(a, k, **kw)
    else:
        out = g.maximum_likelihood_factor_analysis(a, k, tolerance=tol, max_iter=steps, **kw)
    if basis is not None and not _E[2]:
        h.private('girth.factoranalysis.maximum_likelihood', 'numpy.linalg.eigh not used')
    load = None
    for step in range(steps):
        old = list(psi)
        rt = [1 / h.sqrt(p) for p in psi]
        S = [[rt[i] * A[i][j] * rt[j] for j in range(n)] for i in range(n)]
        if basis is None:
            w, v = g.np.linalg.eigh(h.arr(S))
            w, v = h.lst(w), h.lst(v)
            for q in range(n - k, n):
                h.assume(w[q] > 1.05)
        else:
            w, v = _basis(h, n, basis)
        load = [[v[i][q] * h.sqrt(w[q] - 1) for q in range(n - k, n)] for i in range(n)]
        B = [[sum(v[i][q] * (1 / w[q] - 1) * v[j][q] for q in range(n - k, n)) + (1 if i == j else 0) for j in range(n)] for i in range(n)]
        for i in range(n):
            c = B[i][i]
            b = B[i]
            om = (sum(b[p] * S[p][q] * b[q] for p in range(n) for q in range(n)) - c) / (c * c)
            psi[i] = h.max(1e-6, (om + 1) * psi[i])
            f = om / (1 + om * c)
            B = [[B[p][q] - f * B[p][i] * b[q] for q in range(n)] for p in range(n)]
        if step + 1 < steps:
            for x, y in zip(old, psi):       # (rounding must not decide the comparison)
                h.assume(h.any(h.abs(x - y) < tol - 1e-7, h.abs(x - y) > tol + 1e-7))
            if h.truth(h.all(*[h.abs(x - y) < tol for x, y in zip(old, psi)])):
                break
    L, E, U = [h.lst(x) for x in out]
    h.check('loading shape', h.shape(out[0]) == (n, k))
    for i in range(n):
        h.eq('unique variance', U[i], psi[i])
    h.upto_sign('loading', L, [[load[i][q] * h.sqrt(U[i]) for q in range(k)] for i in range(n)])
    for q in range(k):
        h.eq('column sums of squares', E[q], sum(L[i][q] * L[i][q] for i in range(n)))
    h.unchanged('input', before, a)
    if guess:
        h.unchanged('guess', b0, u0)
    h.reach()


def mrfa(h, g, n, k, guess):
    A = _sym(h, n)
    a = h.arr(A)
    before = h.copy(a)
    kw = {}
    if guess:
        u0 = h.reals('u', n, 0.2, 0.8)
        b0 = h.copy(u0)
        kw['initial_guess'] = u0
    L, E, U = g.minimum_rank_factor_analysis(a, k, n_iter=77777 if guess else 33, **kw)
    recs = [r for r in h.w.records if r.kind != 'fixed_point']
    if not recs:
        h.private('girth.factoranalysis.minimum_rank', 'no search')
    r = recs[-1]
    start = h.lst(u0) if guess else h.lst(h.w.records[0].result)
    for i in range(n):
        h.eq('start', r.x0[i], 1 / h.sqrt(start[i]))
    h.check('search range', all(float(v) == 1 for v in r.lo) and all(float(v) >= 100 for v in r.hi))
    opts = r.extra.get('options') or {}
    if 'maxiter' in opts:
        h.check('iterations', int(opts['maxiter']) == (77777 if guess else 33))
    lu, d, _ = g.sp.linalg.ldl(a)
    lu, d = h.lst(lu), h.lst(d)
    C = [[h.sqrt(d[p][p]) * lu[q][p] for q in range(n)] for p in range(n)]

    def parts(x):
        x = h.lst(x)
        M = h.arr([[x[q] * C[p][q] for q in range(n)] for p in range(n)])
        u, s, vt = g.np.linalg.svd(M)
        return x, h.lst(u), h.lst(s), h.lst(vt)

    def cost(e):
        _, u, s, vt = parts(e.x)
        return sum(s[k:]) / s[-1]
    h.same_objective('ratio', r, cost)
    gr = r.extra.get('grads')
    if gr:
        for e, got in ((r.evals[0], gr[0]), (r.evals[-1], gr[-1])):
            x, u, s, vt = parts(e.x)
            got = h.lst(got)
            # d s_j / d x_c = v_jc * sum_p C_pc u_pj
            ds = lambda j, c: vt[j][c] * sum(C[p][c] * u[p][j] for p in range(n))
            for c in range(n):
                want = (sum(ds(j, c) for j in range(k, n)) * s[-1] - sum(s[k:]) * ds(n - 1, c)) / (s[-1] * s[-1])
                h.eq('gradient', got[c], want)
    x, u, s, vt = parts(r.result)
    uv = [s[-1] * s[-1] / (x[i] * x[i]) for i in range(n)]
    got = h.lst(U)
    for i in range(n):
        h.eq('unique variance', got[i], uv[i])
    w, v = g.np.linalg.eigh(h.arr([[A[i][j] - (uv[i] if i == j else 0) for j in range(n)] for i in range(n)]))
    w, v = h.lst(w), h.lst(v)
    l, ev = h.lst(L), h.lst(E)
    h.check('loading shape', h.shape(L) == (n, k))
    for q in range(k):
        p = n - 1 - q
        h.eq('eigenvalue', ev[q], w[p])
    h.upto_sign('loading', l, [[v[i][n - 1 - q] * h.sqrt(w[n - 1 - q]) for q in range(k)] for i in range(n)])
    h.unchanged('input', before, a)
    if guess:
        h.unchanged('guess', b0, u0)
    h.reach()


def _bases(h, x, k):
    x = h.lst(x)
    m = len(x) // k
    rows = []
    for q in range(k):
        t = x[q * m:(q + 1) * m]
        p, row = 1, []
        for v in t:
            row.append(p * h.cos(v))
            p = p * h.sin(v)
        rows.append(row + [p])
    return rows


def sparse(h, g, n, k, mode):
    L = h.reals('l', (n, k), -2, 2)
    before = h.copy(L)
    alpha = h.real('alpha', 0.1, 3)
    na = k * (k - 1)
    if mode.endswith('guess'):
        u0 = h.reals('u', na, 0, 6)
        b0 = h.copy(u0)
    if mode == 'guess':
        out = g.sparsify_loadings(L, initial_guess=u0, alpha=alpha, seed=5)
    elif mode == 'random':
        out = g.sparsify_loadings(L, alpha=alpha, seed=5)
    elif mode == 'default':     # documented
        alpha = 0.5
        out = g.sparsify_loadings(L, seed=5)
    else:
        if mode == 'orthogonal-large':
            alpha = h.real('larger', 50, 500)
        out = g.sparsify_loadings(L, alpha=alpha, orthogonal=True, seed=5, **(dict(initial_guess=u0) if 'guess' in mode else {}))
        alpha = 50.0
    r = h.rec(0)
    if mode.endswith('guess'):
        h.eq('start', list(r.x0), h.lst(u0))
        h.unchanged('guess', b0, u0)
    h.check('angles', len(r.x0) == na)
    R, B = out
    h.check('shapes', h.shape(R) == (n, k) and h.shape(B) == (k, k))
    bs = _bases(h, r.result, k)
    b = h.lst(B)
    for p in range(k):
        h.eq('unit length', sum(v * v for v in b[p]), 1)
        for q in range(k):
            h.eq('basis', b[p][q], bs[p][q])
    det = g.np.linalg.det(h.arr(bs))
    h.assume(h.any(h.sc(det) > 0.05, h.sc(det) < -0.05))
    rr, l = h.lst(R), h.lst(before)
    for i in range(n):
        for q in range(k):
            h.eq('loadings times bases', sum(rr[i][p] * b[p][q] for p in range(k)), l[i][q])

    def obj(e):
        bb = h.arr(_bases(h, e.x, k))
        M = h.lst(h.np.matmul(h.arr(l), g.np.linalg.inv(bb)))
        ent = 0
        for row in M:
            t = sum(v * v for v in row)
            for v in row:
                p = v * v / t
                ent = ent - p * h.log(p + 1e-23)
        return ent + alpha * h.sc(g.np.linalg.cond(bb))
    if k == 2 and n <= 3:
        h.same_objective('entropy and condition', r, obj)
    h.unchanged('loadings', before, L)
    h.reach()
