"""Angle/vector conversion, entropy, Procrustes.

Angles/vectors: trigonometric terms over symbolic angles; sign patterns and exact zeros of the vector are
enumerated, magnitudes symbolic.  Entropy: compared with the definition on symbolic loadings.  Procrustes:
the singular vectors are uninterpreted functions of the matrix handed to the decomposition (with the
orthogonality facts), so the result is compared for every decomposition."""
BOUNDS = 'vectors of 2-5 components (every sign/zero pattern up to 4), angles anywhere in [-7, 7]; entropy of 1x1 .. 4x3 loadings in both directions; rotations of 1x1 .. 4x3 matrices'


def configs(tier):
    out = []
    for n in (1, 2, 3, 4):
        out.append(dict(name='vector-%d' % n, fn='vector', args=dict(n=n)))
    import itertools
    for n in (2, 3):
        for k, sg in enumerate(itertools.product((-1, 0, 1), repeat=n)):
            if any(sg):
                out.append(dict(name='round-%d-%s' % (n, ''.join('-0+'[s + 1] for s in sg)), fn='round_', args=dict(sg=sg)))
    for sg in ((1, 1, 1, 1), (-1, 1, -1, -1), (1, -1, 1, 0), (0, 0, 1, -1), (1, 0, 0, 0), (-1, 0, 0, 0), (0, 1, 0, 0), (0, -1, 0, 0),
               (0, 0, 0, 1), (0, 0, 0, -1), (0, 0, -1, 0), (1, 1, 1, -1), (-1, -1, 0, 1)):
        out.append(dict(name='round-4-' + ''.join('-0+'[s + 1] for s in sg), fn='round_', args=dict(sg=sg)))
    for n, m in ((1, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 3)):
        for ax in (None, 0, 1):
            out.append(dict(name='entropy-%dx%d-%s' % (n, m, ax), fn='ent', args=dict(n=n, m=m, ax=ax)))
    out.append(dict(name='entropy-zero', fn='ent', args=dict(n=2, m=3, ax=1, zero=True)))
    out.append(dict(name='entropy-zero-0', fn='ent', args=dict(n=3, m=2, ax=0, zero=True)))
    for n, k in ((2, 2), (3, 2), (4, 3), (3, 3), (2, 1)):
        out.append(dict(name='procrustes-%dx%d' % (n, k), fn='proc', args=dict(n=n, k=k)))
    return out


def vector(h, g, n):
    t = h.reals('t', n, -7, 7)
    before = h.copy(t)
    v = g.hyperspherical_vector(t)
    h.check('length', h.shape(v) == (n + 1,))
    T, V = h.lst(t), h.lst(v)
    p = 1
    for i in range(n):
        h.eq('component', V[i], p * h.cos(T[i]))
        p = p * h.sin(T[i])
    h.eq('last component', V[n], p)
    h.unchanged('angles', before, t)
    h.reach()


def round_(h, g, sg):
    """vector -> angles -> vector is the vector over its length; angles follow the documented convention"""
    n = len(sg)
    v = [s * h.real('v%d' % i, 0.01, 100) if s else 0.0 for i, s in enumerate(sg)]
    x = h.arr(v)
    before = h.copy(x)
    ang = g.hyperspherical_angles(x)
    h.check('one angle fewer', h.shape(ang) == (n - 1,))
    h.unchanged('vector', before, x)
    w = h.lst(g.hyperspherical_vector(ang))
    r = h.sqrt(sum(a * a for a in v))
    for i in range(n):
        h.eq('component %d' % i, w[i] * r, v[i])
    h.reach()


def ent(h, g, n, m, ax, zero=False):
    A = [[h.real('a%d_%d' % (i, j), 0.002, 50) * (-1 if (i + j) % 3 == 1 else 1) for j in range(m)] for i in range(n)]
    if zero:
        A[0][1] = 0.0
    x = h.arr(A)
    before = h.copy(x)
    out = h.sc(g.entropy(x) if ax is None else g.entropy(x, axis=ax))
    tot = 0
    for i in range(n):
        for j in range(m):
            group = [A[i][k] for k in range(m)] if ax in (None, 1) else [A[k][j] for k in range(n)]
            p = A[i][j] * A[i][j] / sum(u * u for u in group)
            if zero and (i, j) == (0, 1):
                continue
            tot = tot - p * h.log(p)
    h.eq('entropy', out, tot)
    h.unchanged('loadings', before, x)
    k = h.real('scale', 0.01, 100)
    if ax in (None, 1):
        B = [[k * v for v in A[0]]] + A[1:]
    else:
        B = [[k * A[i][0]] + A[i][1:] for i in range(n)]
    h.eq('scale free', h.sc(g.entropy(h.arr(B), axis=1 if ax is None else ax)), out)
    h.reach()


def proc(h, g, n, k):
    X, Y = h.reals('x', (n, k)), h.reals('y', (n, k))
    b = [h.copy(X), h.copy(Y)]
    R = g.procrustes_rotation(X, Y)
    x, y = h.lst(X), h.lst(Y)
    M = h.arr([[sum(y[i][p] * x[i][q] for i in range(n)) for q in range(k)] for p in range(k)])
    u, s, vt = g.np.linalg.svd(M)
    U, V = h.lst(u), h.lst(vt)
    r = h.lst(R)
    h.check('square', h.shape(R) == (k, k))
    for p in range(k):
        for q in range(k):
            h.eq('polar factor', r[p][q], sum(U[p][c] * V[c][q] for c in range(k)))
    h.unchanged('target', b[0], X)
    h.unchanged('collected', b[1], Y)
    h.reach()
