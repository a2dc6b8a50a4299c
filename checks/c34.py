"""Principal components and principal axis factoring.  The eigendecomposition is an uninterpreted function of
the matrix handed to it (so the comparison holds whatever it returns, within the routine's contract of
ascending eigenvalues); loadings, order, scaling and the fixed point map are compared entry by entry."""
BOUNDS = 'symmetric input matrices of 1x1 .. 5x5 with arbitrary entries, 1 .. n factors and the default; principal axis: 2x2 .. 4x4, arbitrary unique variances, with and without initial guess'
ASSUMPTIONS = ['numpy.linalg.eigh returns eigenvalues in ascending order with unit eigenvectors (its contract); retained eigenvalues are non-negative',
               'scipy.optimize.fixed_point returns an arbitrary vector; that it is a fixed point of the map it is given is its contract']


def configs(tier):
    out = []
    for n in (1, 2, 3, 4, 5):
        for k in [None] + list(range(1, n + 1)):
            out.append(dict(name='pca-%d-%s' % (n, k), fn='pca', args=dict(n=n, k=k)))
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 2), (2, 2)):
        for guess in (False, True):
            out.append(dict(name='paf-%d-%d%s' % (n, k, '-guess' if guess else ''), fn='paf', args=dict(n=n, k=k, guess=guess)))
    out.append(dict(name='reproduce', fn='reproduce'))
    return out


def _sym(h, n, diag=None):
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            A[i][j] = A[j][i] = h.real('r%d_%d' % (i, j), -0.6 / n, 0.9 / n)
        A[i][i] = h.real('v%d' % i, 1, 3) if diag is None else diag
    return A


def _lead(h, g, A, k):
    """eigenpairs of A, decreasing, first k"""
    w, v = g.np.linalg.eigh(h.arr(A))
    w, v = h.lst(w), h.lst(v)
    n = len(A)
    idx = list(range(n - 1, n - 1 - k, -1))
    return [w[i] for i in idx], [[v[r][i] for i in idx] for r in range(n)]


def pca(h, g, n, k):
    A = _sym(h, n)
    a = h.arr(A)
    before = h.copy(a)
    w, v = _lead(h, g, A, n if k is None else k)
    for x in w:
        h.assume(x > 0.01)
    out = g.principal_components_analysis(a) if k is None else g.principal_components_analysis(a, k)
    h.check('three results', len(out) == 3)
    L, E, U = [h.lst(x) for x in out]
    kk = n if k is None else k
    h.check('loading shape', h.shape(out[0]) == (n, kk))
    h.check('eigenvalue shape', h.shape(out[1]) == (kk,))
    for q in range(kk):
        h.eq('eigenvalue', E[q], w[q])
    h.upto_sign('loading', L, [[v[r][q] * h.sqrt(w[q]) for q in range(kk)] for r in range(n)])
    for r in range(n):
        for s in range(n):
            h.eq('outer product', sum(L[r][q] * L[s][q] for q in range(kk)), sum(w[q] * v[r][q] * v[s][q] for q in range(kk)))
    h.eq('no unique variance', U, [0.0] * n)
    h.unchanged('input', before, a)
    h.reach()


def _paf_map(h, g, A, u, k):
    n = len(A)
    B = [[A[i][j] - (u[i] if i == j else 0) for j in range(n)] for i in range(n)]
    w, v = _lead(h, g, B, k)
    return B, w, v


def paf(h, g, n, k, guess):
    A = _sym(h, n)
    a = h.arr(A)
    before = h.copy(a)
    kw = {}
    if guess:
        u0 = h.reals('u0', n, 0.1, 0.9)
        kw['initial_guess'] = u0
        b0 = h.copy(u0)
    tol, cap = h.real('tol', 1e-8, 0.5), 77777 if guess else 77
    if n == 2 and not guess:    # documented: 0.001, 2000 iterations
        tol, cap = 0.001, 2000
        L, E, U = g.principal_axis_factor(a, k)
    else:
        L, E, U = g.principal_axis_factor(a, k, tolerance=tol, max_iterations=cap, **kw)
    r = h.rec(0)
    if r.kind != 'fixed_point':
        h.private('girth.factoranalysis.paf', 'fixed point search not used')
    h.eq('start', list(r.x0), h.lst(u0) if guess else [0.0] * n)
    h.eq('tolerance', h.sc(r.extra['xtol']), tol)
    h.eq('iterations', h.sc(r.extra['maxiter']), cap)
    e = r.evals[0]
    x = h.lst(e.x)
    B, w, v = _paf_map(h, g, A, x, k)
    for q in w:
        h.assume(q > 0.01)
    val = h.lst(e.value)
    for i in range(n):
        h.eq('communality update', val[i], A[i][i] - sum(w[q] * v[i][q] * v[i][q] for q in range(k)))
    u = h.lst(r.result)
    h.eq('unique variance', h.lst(U), u)
    B, w, v = _paf_map(h, g, A, u, k)
    l, ev = h.lst(L), h.lst(E)
    h.check('loading shape', h.shape(L) == (n, k))
    for q in range(k):
        h.eq('eigenvalue', ev[q], w[q])
    h.upto_sign('loading', l, [[v[i][q] * h.sqrt(w[q]) for q in range(k)] for i in range(n)])
    h.unchanged('input', before, a)
    if guess:
        h.unchanged('guess', b0, u0)
    h.reach()


def reproduce(h, g):
    """all components of a diagonal matrix reproduce it (concrete decomposition, symbolic scale)"""
    out = g.principal_components_analysis(h.arr([[2.0, 1.0], [1.0, 2.0]]))
    L = h.lst(out[0])
    for i in range(2):
        for j in range(2):
            h.eq('reproduces', sum(L[i][q] * L[j][q] for q in range(2)), 2.0 if i == j else 1.0)
    h.eq('decreasing', h.lst(out[1]), [3.0, 1.0])
    h.reach()
