"""Environment stubs shared by the symbolic and the concrete-replay runs.

Optimisers, quadrature nodes, random numbers and worker pools return arbitrary
values constrained only by their documented contract; the values are named, so
a solver model of a symbolic run determines the same values in the replay on
the real code (real numpy, real scipy special functions).
"""
import copy as _copy
import math
import types
from fractions import Fraction

import numpy as rnp

from . import term as T
from . import sarray as S
from .term import Term, Bool, Unsupported


class World:
    def __init__(self, ctx, symbolic):
        self.ctx = ctx
        self.symbolic = symbolic
        self.records = []
        self.stack = []
        self.probes = {0: 1}      # depth -> evaluations at arbitrary earlier points
        self.active = None        # active quadrature node indices
        self.nactive = 2
        self.spans = None         # {rule size: (a, b)}: nodes named on that interval
        self.naming = None        # ranges of the values named on conversion to float64
        self.real_nodes = False   # the true rule instead of an arbitrary one
        self.rngs = []
        self.shm = {}
        self.fake_pool = True
        self.pools = []
        self.slsqp_assume = True
        self.choose = None        # hook(rec, i) -> value used instead of a fresh one
        self.result_box = 10.0
        self.coarse = None        # a counter: searches and draws are answered by fixed numbers
        self.coarse_at = {}       # except the n-th
        self.order = []
        self.unseeded = 0         # generators made without a seed


W = World(None, False)


def new_world(ctx, symbolic):
    W.__init__(ctx, symbolic)
    return W


class _Module(types.ModuleType):
    def __init__(self, name, d, real=None, symbolic=False):
        super().__init__(name)
        self.__dict__.update(d)
        self.__dict__['_real'] = real
        self.__dict__['_symb'] = symbolic
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = self.__dict__.get('_real')
        if r is None:
            raise AttributeError("module %s has no attribute %s" % (self.__name__, n))
        v = getattr(r, n)
        if not self.__dict__['_symb'] or isinstance(v, (type, types.ModuleType)) or not callable(v):
            return v
        return S.generic("%s.%s" % (self.__name__, n), v)


# --------------------------------------------------------------- optimisers
class Eval:
    __slots__ = ('x', 'value', 'children', 'rec', 'probe')

    def __init__(self, x, rec, probe):
        self.x = x
        self.value = None
        self.children = []
        self.rec = rec
        self.probe = probe


class Rec:
    """one call of an optimiser: objective, box, start point, evaluations"""

    def __init__(self, kind, lo, hi, x0):
        self.kind = kind
        self.lo = lo
        self.hi = hi
        self.x0 = x0
        self.evals = []
        self.result = None
        self.fun = None
        self.depth = len(W.stack)
        self.idx = None
        self.eqcons = None
        self.ieqcons = None
        self.extra = {}
        self.toks = {}

    @property
    def final(self):
        return self.evals[-1]


def _scalar_out(v):
    if hasattr(v, '__symarray__'):
        if v.a.size != 1:
            raise ValueError("The user-provided objective function must return a scalar value.")
        return v.a.reshape(-1)[0]
    if isinstance(v, rnp.ndarray):
        if v.size != 1:
            raise ValueError("The user-provided objective function must return a scalar value.")
        return float(v.reshape(-1)[0])
    if isinstance(v, (list, tuple)):
        raise ValueError("objective must return a scalar")
    return v


def _mkarr(vals):
    if W.symbolic:
        o = rnp.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            o[i] = v
        return S.SymArray(o, S.F8)
    return rnp.array([float(v) for v in vals], dtype=float)


def _mksc(v):
    if W.symbolic:
        return v
    return rnp.float64(v)


def _num(v):
    """bound to float"""
    if hasattr(v, '__symarray__'):
        v = v.a.reshape(-1)[0]
    elif isinstance(v, rnp.ndarray):
        v = v.reshape(-1)[0]
    if isinstance(v, Term):
        raise Unsupported("symbolic optimiser bound")
    return float(v)


def _evaluate(rec, x, probe, call):
    e = Eval(_copy_x(x), rec, probe)
    rec.evals.append(e)
    W.stack.append(e)
    try:
        v = call(x)
    finally:
        W.stack.pop()
    e.value = v
    return e


def _copy_x(x):
    return x.copy() if hasattr(x, 'copy') else x


def _register(rec):
    if W.stack:
        W.stack[-1].children.append(rec)
    else:
        rec.idx = len(W.records)
        W.records.append(rec)
    W.order.append(rec)


def _fresh(base, lo, hi):
    lo = max(lo, -W.result_box) if lo == -math.inf else lo
    hi = W.result_box if hi == math.inf else hi
    if lo == hi:
        return lo
    if W.coarse is not None:
        return _coarse(lo, hi)
    return W.ctx.fresh(base, lo, hi)


def _coarse(lo, hi):
    W.coarse += 1
    if W.coarse in W.coarse_at:
        return W.coarse_at[W.coarse]
    return lo + (hi - lo) * (0.375, 0.625, 0.25, 0.5, 0.75)[W.coarse % 5]


def _nprobes(rec):
    return W.probes.get(rec.depth, 0)


def fminbound(func, x1, x2, args=(), xtol=1e-05, maxfun=500, full_output=0, disp=1):
    lo, hi = _num(x1), _num(x2)
    if lo > hi:
        raise ValueError("The lower bound exceeds the upper bound.")
    rec = Rec('fminbound', lo, hi, None)
    rec.fun = func
    rec.extra['xtol'] = xtol
    rec.extra['args'] = args
    _register(rec)

    def call(x):
        return _scalar_out(func(x, *args))
    nm = 'fmb%d' % rec.depth
    for i in range(_nprobes(rec)):
        _evaluate(rec, _mksc(_fresh(nm + 'p', lo, hi)), True, call)
    x = W.choose(rec, 0) if W.choose else None
    if x is None:
        x = _fresh(nm, lo, hi)
    x = _mksc(x)
    _evaluate(rec, x, False, call)
    rec.result = x
    if full_output:
        return x, rec.final.value, 0, 1
    return x


def _bounds_list(bounds, n):
    if bounds is None or (hasattr(bounds, '__len__') and len(bounds) == 0):
        return [(-math.inf, math.inf)] * n
    if hasattr(bounds, 'lb'):
        lb = rnp.broadcast_to(rnp.asarray(bounds.lb, dtype=float), (n,))
        ub = rnp.broadcast_to(rnp.asarray(bounds.ub, dtype=float), (n,))
        return list(zip(lb.tolist(), ub.tolist()))
    out = []
    for b in bounds:
        lo, hi = b
        out.append((-math.inf if lo is None else _num(lo), math.inf if hi is None else _num(hi)))
    return out


def _x0list(x0):
    if hasattr(x0, '__symarray__'):
        return list(x0.a.reshape(-1))
    if isinstance(x0, (list, tuple)):
        return list(x0)
    return list(rnp.atleast_1d(rnp.asarray(x0)).reshape(-1).tolist())


def _vector_min(kind, func, x0, args, bounds, f_eqcons=None, f_ieqcons=None, eqcons=(), ieqcons=(),
                jac=False):
    if not isinstance(args, tuple):
        args = (args,)
    xs = _x0list(x0)
    n = len(xs)
    bl = _bounds_list(bounds, n)
    if len(bl) != n:
        raise IndexError("SLSQP Error: the length of bounds is not compatible with that of x0.")
    for lo, hi in bl:
        if lo > hi:
            raise ValueError("SLSQP Error: lb > ub in bounds")
    rec = Rec(kind, [b[0] for b in bl], [b[1] for b in bl], xs)
    rec.fun = func
    rec.eqcons = f_eqcons
    rec.ieqcons = f_ieqcons
    rec.extra['args'] = args
    _register(rec)

    def call(x):
        v = func(x, *args)
        if jac is True:
            rec.extra.setdefault('grads', []).append(v[1])
            v = v[0]
        return _scalar_out(v)

    def point(nm):
        if W.choose:
            r = W.choose(rec, nm)
            if r is not None:
                return _mkarr(list(r))
        if W.coarse is not None and f_ieqcons is not None:
            return _mkarr(xs)
        x = _mkarr([_fresh('%s_%d' % (nm, i), lo, hi) for i, (lo, hi) in enumerate(bl)])
        if f_ieqcons is not None and W.slsqp_assume:
            g = f_ieqcons(x, *args)
            gl = list(g.a.reshape(-1)) if hasattr(g, '__symarray__') else list(rnp.atleast_1d(g).reshape(-1))
            for v in gl:
                W.ctx.assume(v >= 0)
        return x
    nm = 'vm%d' % rec.depth
    for i in range(_nprobes(rec)):
        _evaluate(rec, point(nm + 'p'), True, call)
    x = point(nm)
    _evaluate(rec, x, False, call)
    rec.result = x
    return rec


def fmin_slsqp(func, x0, eqcons=(), f_eqcons=None, ieqcons=(), f_ieqcons=None, bounds=(),
               fprime=None, fprime_eqcons=None, fprime_ieqcons=None, args=(), iter=100, acc=1e-06,
               iprint=1, disp=None, full_output=0, epsilon=1.5e-8, callback=None):
    rec = _vector_min('slsqp', func, x0, args, bounds, f_eqcons, f_ieqcons)
    rec.extra['eqs'] = [f for f in list(eqcons) + [f_eqcons] if f is not None]
    x = rec.result.copy()
    if full_output:
        return x, rec.final.value, 1, 0, 'Optimization terminated successfully'
    return x


class Result(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None,
             constraints=(), tol=None, callback=None, options=None):
    rec = _vector_min('minimize', fun, x0, args, bounds, jac=jac)
    rec.extra['method'] = method
    rec.extra['options'] = options
    cons = [constraints] if isinstance(constraints, dict) else list(constraints)
    rec.extra['eqs'] = [(lambda x, *a, c=c: c['fun'](x, *c.get('args', ()))) for c in cons if c['type'] == 'eq']
    return Result(x=rec.result.copy(), fun=rec.final.value, success=True, nit=1, status=0, message='')


def basinhopping(func, x0, niter=100, T=1.0, stepsize=0.5, minimizer_kwargs=None, take_step=None,
                 accept_test=None, callback=None, interval=50, disp=False, niter_success=None, seed=None,
                 **kw):
    mk = minimizer_kwargs or {}
    rec = _vector_min('basinhopping', func, x0, mk.get('args', ()), mk.get('bounds'), jac=mk.get('jac'))
    rec.extra['seed'] = seed
    return Result(x=rec.result.copy(), fun=rec.final.value, success=True, nit=1)


def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
    if bounds is None:
        raise Unsupported("unbounded minimize_scalar")
    box = {}
    x = fminbound(fun, bounds[0], bounds[1], args=args)
    rec = W.order[-1]
    for r in reversed(W.order):
        if r.fun is fun:
            rec = r
            break
    return Result(x=x, fun=rec.final.value, success=True, nfev=1)


def fixed_point(func, x0, args=(), xtol=1e-08, maxiter=500, method='del2'):
    xs = _x0list(x0)
    n = len(xs)
    rec = Rec('fixed_point', [0.05] * n, [0.95] * n, xs)
    rec.fun = func
    rec.extra.update(args=args, xtol=xtol, maxiter=maxiter)
    _register(rec)
    x = _mkarr([_fresh('fp_%d' % i, 0.05, 0.95) for i in range(n)])
    _evaluate(rec, x, False, lambda v: func(v, *args))
    rec.result = x
    return x.copy()


def optimize_module(symbolic):
    import scipy.optimize as ro
    d = dict(fminbound=fminbound, fmin_slsqp=fmin_slsqp, minimize=minimize, basinhopping=basinhopping,
             minimize_scalar=minimize_scalar, fixed_point=fixed_point)
    inner = _Module('scipy.optimize.optimize', dict(d), ro, symbolic)
    d['optimize'] = inner
    d['_optimize'] = inner
    return _Module('scipy.optimize', d, ro, symbolic)


# --------------------------------------------------------------- quadrature
def nodes(n):
    """n Gauss nodes/weights on [-1, 1]: arbitrary active ones, others weight 0"""
    n = int(n)
    if W.real_nodes:
        x, w = rnp.polynomial.legendre.leggauss(n)
        return _mkarr(x.tolist()), _mkarr(w.tolist())
    act = W.active.get(n, []) if isinstance(W.active, dict) else W.active
    if act is None:
        act = sorted({0, n - 1, n // 2})[:W.nactive] if W.nactive < 3 else sorted({0, n // 2, n - 1})
        if W.nactive == 1:
            act = [0]
        elif W.nactive == 2:
            act = [0, n - 1]
    xs, ws = [], []
    for k in range(n):
        if k in act:
            span = (W.spans or {}).get(n)
            if span:            # name the node on its final interval instead
                half, mid = Fraction(span[1] - span[0]) / 2, Fraction(span[1] + span[0]) / 2
                x = W.ctx.real('gx%d_%d' % (n, k), float(mid - half * 49 / 50), float(mid + half * 49 / 50))
                w = W.ctx.real('gw%d_%d' % (n, k), 0.05 * float(half), float(half))
                xs.append((x - mid) / half if W.symbolic else (x - float(mid)) / float(half))
                ws.append(w / half if W.symbolic else w / float(half))
                continue
            xs.append(W.ctx.real('gx%d_%d' % (n, k), -0.98, 0.98))
            ws.append(W.ctx.real('gw%d_%d' % (n, k), 0.05, 1.0))
        else:
            xs.append(-0.9 + 1.8 * (k + 0.31) / n)
            ws.append(0.0)
    return _mkarr(xs), _mkarr(ws)


def roots_legendre(n, mu=False):
    x, w = nodes(n)
    if mu:
        return x, w, 2.0
    return x, w


def fixed_quad(func, a, b, args=(), n=5):
    x, w = nodes(n)
    y = (x + 1) * ((b - a) / 2.0) + a
    r = func(y, *args)
    if W.symbolic:
        return S.sum(S.asarray(r) * w, axis=-1) * ((b - a) / 2.0), None
    return (b - a) / 2.0 * rnp.sum(w * r, axis=-1), None


# ------------------------------------------------------------------ random
class Rng:
    def __init__(self, seed):
        self.seed = seed
        self.id = len(W.rngs)
        if seed is None or (isinstance(seed, SeedSeq) and seed.entropy is None):
            W.unseeded += 1
            self.id = '%d_%d' % (self.id, W.unseeded) if W.unseeded > 1 else self.id
        self.calls = []
        W.rngs.append(self)

    def _u(self, size, lo=0.0, hi=1.0):
        self.calls.append(('uniform', size))
        if size is None:
            return _mksc(_fresh('rng%d_u' % self.id, lo, hi))
        sh = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
        sh = tuple(int(s) for s in sh)
        cnt = int(rnp.prod(sh)) if sh else 1
        return _mkarr([_fresh('rng%d_u' % self.id, lo, hi) for _ in range(cnt)]).reshape(*sh)

    def uniform(self, low=0.0, high=1.0, size=None):
        if hasattr(low, '__symarray__') or hasattr(high, '__symarray__') or isinstance(low, rnp.ndarray) \
                or isinstance(high, rnp.ndarray):
            raise Unsupported("array bounds for uniform")
        if (low, high) == (0.0, 1.0):
            return self._u(size)
        return low + (high - low) * self._u(size)

    def random(self, size=None, **k):
        return self._u(size)

    random_sample = random

    def rand(self, *sh):
        return self._u(sh)

    def standard_normal(self, size=None):
        self.calls.append(('normal', size))
        return self._u(size, -4.0, 4.0)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = high if endpoint else high - 1
        return self._i(int(low), int(hi), size)

    randint = integers

    def _i(self, lo, hi, size):
        self.calls.append(('int', size, lo, hi))
        if size is None:
            return W.ctx.fresh_cat('rng%d_i' % self.id, range(lo, hi + 1))
        sh = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
        cnt = int(rnp.prod([int(s) for s in sh]))
        vals = [W.ctx.fresh_cat('rng%d_i' % self.id, range(lo, hi + 1)) for _ in range(cnt)]
        if W.symbolic:
            o = rnp.empty(cnt, dtype=object)
            for i, v in enumerate(vals):
                o[i] = v
            return S.SymArray(o, S.I8).reshape(*sh)
        return rnp.array(vals, dtype=int).reshape(sh)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if not replace or p is not None:
            raise Unsupported("choice without replacement")
        if isinstance(a, (int, rnp.integer)):
            return self._i(0, int(a) - 1, size)
        arr = a
        n = arr.shape[axis]
        idx = self._i(0, n - 1, size)
        return (S.take if W.symbolic else rnp.take)(arr, idx, axis=axis)

    def permutation(self, *a, **k):
        raise Unsupported("permutation")

    shuffle = permutation

    def spawn(self, n):
        return [Rng(('spawned', self.seed, i)) for i in range(n)]

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


class SeedSeq:
    def __init__(self, entropy=None, spawn_key=()):
        self.entropy = entropy
        self.spawn_key = spawn_key
        self.n = 0

    def spawn(self, n):
        r = [SeedSeq(self.entropy, tuple(self.spawn_key) + (self.n + i,)) for i in range(n)]
        self.n += n
        return r

    def __eq__(self, o):
        return isinstance(o, SeedSeq) and (self.entropy, self.spawn_key) == (o.entropy, o.spawn_key)

    def __hash__(self):
        return hash((str(self.entropy), self.spawn_key))


def default_rng(seed=None):
    if isinstance(seed, Rng):
        return seed
    return Rng(seed)


def random_module():
    return _Module('numpy.random', dict(default_rng=default_rng, SeedSequence=SeedSeq, Generator=Rng,
                                        RandomState=Rng), rnp.random, False)


# ------------------------------------------------------------ process pools
def _cparg(x):
    if hasattr(x, '__symarray__') or isinstance(x, rnp.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return dict(x)
    if isinstance(x, list):
        return [_cparg(e) for e in x]
    return x


class Future:
    def __init__(self, v):
        self.v = v

    def result(self, timeout=None):
        return self.v

    get = result


class Pool:
    def __init__(self, processes=None, *a, max_workers=None, **k):
        self.n = processes if processes is not None else max_workers
        if self.n is not None and self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        W.pools.append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, f, it, chunksize=None):
        return [f(*[_cparg(x) for x in a]) for a in list(it)]

    def map(self, f, *its, timeout=None, chunksize=1):
        its = [it for it in its if not isinstance(it, (int, type(None)))]
        return iter([f(*[_cparg(x) for x in a]) for a in list(zip(*its))])

    imap = map
    imap_unordered = map

    def submit(self, f, *a, **k):
        return Future(f(*[_cparg(x) for x in a], **k))

    def apply(self, f, args=(), kwds=None):
        return f(*[_cparg(x) for x in args], **(kwds or {}))

    def apply_async(self, f, args=(), kwds=None, **k):
        return Future(self.apply(f, args, kwds))

    def close(self):
        pass

    join = terminate = close

    def shutdown(self, *a, **k):
        pass


class MpPool(Pool):
    def map(self, f, it, chunksize=None):
        return [f(_cparg(a)) for a in list(it)]


class Buf:
    def __init__(self, size):
        self.size = size
        self.store = None

    def storage(self, shape, dt):
        n = int(rnp.prod(shape))
        if n * rnp.dtype(dt).itemsize > self.size:
            raise TypeError("buffer is too small for requested array")
        if self.store is None:
            o = rnp.empty(n, dtype=object)
            o[:] = 0
            self.store = S.SymArray(o, dt)
        if self.store.dtype != dt or self.store.a.size != n:
            raise Unsupported("reinterpreting a shared buffer")
        return S.SymArray(self.store.a.reshape(shape), dt)


class Shm:
    def __init__(self, size):
        self.name = 'shm%d' % (len(W.shm) + 1)
        self.size = size
        self.buf = Buf(size) if W.symbolic else memoryview(bytearray(max(int(size), 1)))
        W.shm[self.name] = self

    def close(self):
        pass

    def unlink(self):
        W.shm.pop(self.name, None)


def SharedMemory(name=None, create=False, size=0):
    if create:
        return Shm(size)
    if name not in W.shm:
        raise FileNotFoundError(name)
    return W.shm[name]


class SMM:
    def __enter__(self):
        self.blocks = []
        return self

    def start(self):
        self.blocks = []

    def SharedMemory(self, size):
        if size <= 0:
            raise ValueError("'size' must be a positive number different from zero")
        s = Shm(size)
        self.blocks.append(s)
        return s

    def __exit__(self, *a):
        for b in self.blocks:
            b.unlink()
        return False

    def shutdown(self):
        self.__exit__()


class MpContext:
    def __init__(self, method=None):
        self.method = method

    def Pool(self, processes=None, *a, **k):
        return MpPool(processes)


def mp_modules():
    shm = _Module('multiprocessing.shared_memory', dict(SharedMemory=SharedMemory))
    man = _Module('multiprocessing.managers', dict(SharedMemoryManager=SMM))
    mp = _Module('multiprocessing', dict(get_context=MpContext, Pool=MpPool, shared_memory=shm,
                                         managers=man, cpu_count=lambda: 2))
    fut = _Module('concurrent.futures', dict(ProcessPoolExecutor=Pool, ThreadPoolExecutor=Pool,
                                             as_completed=lambda fs, timeout=None: list(fs)))
    conc = _Module('concurrent', dict(futures=fut))
    return {'multiprocessing': mp, 'multiprocessing.shared_memory': shm,
            'multiprocessing.managers': man, 'concurrent': conc, 'concurrent.futures': fut}


# -------------------------------------------------- symbolic scipy functions
def _bc(f, real, dtype=S.F8):
    """elementwise function of several broadcast arguments"""
    def g(*a, **k):
        if any(_issym(x) for x in a):
            return S.scalar_out(S.omap(f, *[S.asobj(x)[0] if isinstance(S.asobj(x), tuple) else S.asobj(x)
                                           for x in a]), dtype)
        return S.wrap(real(*[_real(x) for x in a], **k))
    return g


def _issym(x):
    if isinstance(x, (Term, Bool)):
        return True
    if hasattr(x, '__symarray__'):
        return x.symbolic()
    if isinstance(x, (list, tuple)):
        return any(_issym(e) for e in x)
    return False


def _real(x):
    if hasattr(x, '__symarray__'):
        return x.real_array()
    if isinstance(x, (list, tuple)):
        return type(x)(_real(e) for e in x)
    return x


def _arr(x):
    return S.asarray(x).a


def elementwise(f, *arrs):
    """apply python function over broadcast symbolic arrays -> SymArray or scalar"""
    bs = [_arr(x) for x in arrs]
    sh = rnp.broadcast_shapes(*[b.shape for b in bs])
    bs = [rnp.broadcast_to(b, sh) for b in bs]
    if sh == ():
        return f(*[b[()] for b in bs])
    o = rnp.empty(sh, dtype=object)
    for ix in rnp.ndindex(*sh):
        o[ix] = f(*[b[ix] for b in bs])
    return S.SymArray(o, S.F8)


def _phi_np(x):
    from scipy.special import ndtr
    return float(ndtr(x))


def ndtr1(x):
    if not isinstance(x, Term):
        return _phi_np(x)
    return T.uf('ndtr', x, lo=0.0, hi=1.0, fn=_phi_np)


def erfinv1(x):
    from scipy.special import erfinv
    if not isinstance(x, Term):
        return float(erfinv(x))
    # erfinv(2p - 1) = ndtri(p) / sqrt 2
    return T.uf('erfinv', x, lo=-50.0, hi=50.0, fn=lambda v: float(erfinv(v)))


def ndtri1(x):
    return T.lift(erfinv1(2 * x - 1)) * math.sqrt(2.0) if isinstance(x, Term) else _ndtri(x)


def _ndtri(x):
    from scipy.special import ndtri
    return float(ndtri(x))


SQ2PI = math.sqrt(2 * math.pi)


class _Dist:
    """continuous distribution: scalar formulas in terms of the standard variate"""

    def __init__(self, real, pdf, cdf=None, ppf=None, nshape=0):
        self._real = real
        self._pdf = pdf
        self._cdf = cdf
        self._ppf = ppf
        self._ns = nshape

    def __call__(self, *a, **k):
        return _Frozen(self, a, k)

    freeze = __call__

    def _args(self, a, k):
        a = list(a)
        shapes = []
        for i in range(self._ns):
            shapes.append(a.pop(0) if a else k.pop('s', k.pop('a', None)))
        loc = a.pop(0) if a else k.get('loc', 0)
        scale = a.pop(0) if a else k.get('scale', 1)
        return shapes, loc, scale

    def _ap(self, which, x, a, k):
        shapes, loc, scale = self._args(a, dict(k))
        if not any(_issym(v) for v in (x, loc, scale, *shapes)):
            rs = [_real(v) for v in shapes]
            with rnp.errstate(all='ignore'):
                return S.wrap(getattr(self._real, which)(_real(x), *rs, loc=_real(loc), scale=_real(scale)))

        def f(v, l, s, *sh):
            if which in ('ppf', 'isf'):
                if self._ppf is None:
                    raise Unsupported(which)
                q = v if which == 'ppf' else 1 - v
                return l + s * self._ppf(q, *sh)
            z = (v - l) / s
            if which == 'pdf':
                return self._pdf(z, *sh) / s
            if which == 'logpdf':
                return T.log(self._pdf(z, *sh) / s)
            if self._cdf is None:
                raise Unsupported(which)
            c = self._cdf(z, *sh)
            if which == 'cdf':
                return c
            if which == 'sf':
                return 1 - c
            if which == 'logcdf':
                return T.log(c)
            raise Unsupported(which)
        return elementwise(f, x, loc, scale, *shapes)

    def __getattr__(self, n):
        if n in ('pdf', 'cdf', 'sf', 'ppf', 'isf', 'logpdf', 'logcdf'):
            return lambda x, *a, **k: self._ap(n, x, a, k)
        if n.startswith('__'):
            raise AttributeError(n)
        return S.generic(n, getattr(self._real, n))


class _Frozen:
    def __init__(self, d, a, k):
        self.d, self.a, self.k = d, a, k

    def __getattr__(self, n):
        if n in ('pdf', 'cdf', 'sf', 'ppf', 'isf', 'logpdf', 'logcdf'):
            return lambda x: self.d._ap(n, x, self.a, self.k)
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.d._real(*self.a, **self.k), n)


def _npdf(z):
    z = T.lift(z)
    return T.lift(T.exp(-z * z / 2)) / SQ2PI


def _upd(z):
    z = T.lift(z)
    return T.ite(T.band(z >= 0, z <= 1), 1.0, 0.0)


def _raylpdf(z):
    """opaque on positive arguments"""
    z = T.lift(z)
    if not isinstance(z, Term) or T.is_const(z):
        v = float(T.concretize(z) if isinstance(z, Term) else z)
        return v * math.exp(-v * v / 2) if v >= 0 else 0.0
    if T.sign(z) != '+' and not (len(T.factor_monomial(z.d)[1]) and T.sign(T.Term({T.factor_monomial(z.d)[1]: T.factor_monomial(z.d)[0]})) == '+'):
        return T.ite(z >= 0, z * T.exp(-z * z / 2), 0.0)
    return T.uf('pos_rayleigh', z, lo=0, fn=lambda v: v * math.exp(-v * v / 2) if v >= 0 else 0.0)


def _lognpdf(z, s):
    z = T.lift(z)
    from scipy.stats import lognorm
    if not isinstance(z, Term):
        return float(lognorm(s).pdf(z))
    return T.uf('pos_lognorm%g' % s, z, lo=0, fn=lambda v: float(lognorm(s).pdf(v)))


def _expcdf(z):
    raise Unsupported('cdf')


def mvnun(lower, upper, means, covar, maxpts=0, abseps=1e-6, releps=1e-6):
    args = [lower, upper, means, covar]
    if not any(_issym(x) for x in args):
        from scipy.stats import mvn
        return mvn.mvnun(*[_real(x) for x in args], abseps=abseps)
    flat = []
    for x in args:
        flat += list(S.asarray(x).a.reshape(-1))
    n = int(round(math.sqrt(len(list(S.asarray(covar).a.reshape(-1))))))
    if n != 2:
        raise Unsupported("mvnun dimension")
    def can(v):
        # saturated limits (beyond 9 sd) are equivalent; rounding noise of constants is dropped
        if isinstance(v, Term) and T.is_const(v):
            v = float(T.const_value(v))
        if not isinstance(v, Term):
            v = float(v)
            return max(-9.0, min(9.0, round(v, 11)))
        return v
    coords = [(can(flat[i]), can(flat[2 + i]), flat[4 + i], flat[6 + 3 * i]) for i in range(2)]
    off = [flat[7], flat[8]]
    # the integral does not depend on the order of the coordinates
    ks = [tuple(repr(T.lift(v).d) if isinstance(v, Term) else repr(v) for v in c) for c in coords]
    if ks[1] < ks[0]:
        coords.reverse()
        off.reverse()
    (l0, u0, m0, d0), (l1, u1, m1, d1) = coords
    key, mu = [l0, l1, u0, u1], [m0, m1]
    r = T.uf('mvnun', *[T.lift(v) for v in key + mu + [d0, off[0], off[1], d1]], lo=0.0, hi=1.0, fn=_mvn_np)
    return r, 0


_MVC = {}


def _mvn_np(*v):
    from scipy.stats import mvn
    k = tuple(round(float(x), 12) for x in v)
    if k not in _MVC:
        lo, up, mu = v[0:2], v[2:4], v[4:6]
        c = rnp.array([[v[6], v[7]], [v[8], v[9]]])
        _MVC[k] = float(mvn.mvnun(lo, up, mu, c, abseps=1e-12)[0])
    return _MVC[k]


def special_module():
    import scipy.special as rs
    d = dict(
        expit=S._unary('expit', T.expit, rs.expit),
        logit=S._unary('logit', lambda p: T.log(T.lift(p) / (1 - T.lift(p))), rs.logit),
        log_expit=S._unary('log_expit', lambda x: T.log(T.expit(x)), rs.log_expit),
        ndtr=S._unary('ndtr', ndtr1, rs.ndtr),
        erfinv=S._unary('erfinv', erfinv1, rs.erfinv),
        ndtri=S._unary('ndtri', ndtri1, rs.ndtri),
        erf=S._unary('erf', lambda x: 2 * T.lift(ndtr1(T.lift(x) * math.sqrt(2.0))) - 1, rs.erf),
        roots_legendre=roots_legendre, p_roots=roots_legendre,
        logsumexp=_logsumexp, xlogy=lambda x, y: S.asarray(x) * S.log(y),
        softmax=_softmax,
    )
    return _Module('scipy.special', d, rs, True)


def _logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    e = S.exp(a)
    if b is not None:
        e = e * b
    return S.log(S.sum(e, axis=axis, keepdims=keepdims))


def _softmax(x, axis=None):
    e = S.exp(x)
    return e / S.sum(e, axis=axis, keepdims=True)


def stats_module():
    import scipy.stats as rst
    mvnm = _Module('scipy.stats.mvn', dict(mvnun=mvnun), None, True)
    d = dict(norm=_Dist(rst.norm, _npdf, ndtr1, ndtri1),
             uniform=_Dist(rst.uniform, _upd),
             rayleigh=_Dist(rst.rayleigh, _raylpdf),
             lognorm=_Dist(rst.lognorm, _lognpdf, nshape=1),
             mvn=mvnm)
    return _Module('scipy.stats', d, rst, True)


class interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=math.nan,
                 assume_sorted=False):
        if kind != 'linear':
            raise Unsupported("interp1d kind")
        self.x = list(S.asarray(x).a.reshape(-1))
        self.y = list(S.asarray(y).a.reshape(-1))
        if len(self.x) != len(self.y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            order = S._sorted(self.x) if False else self._order()
            self.x = [self.x[i] for i in order]
            self.y = [self.y[i] for i in order]
        self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if self.extrap:
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            self.err = False
        else:
            if bounds_error is None:
                f = fill_value
                isn = isinstance(f, float) and f != f
                self.err = bool(isn)
            else:
                self.err = bool(bounds_error)
            if isinstance(fill_value, tuple) and len(fill_value) == 2:
                self.fill = fill_value
            else:
                self.fill = (fill_value, fill_value)

    def _order(self):
        idx = list(range(len(self.x)))
        out = []
        for i in idx:                       # insertion sort, comparisons may fork
            k = len(out)
            while k > 0 and bool(self.x[i] < self.x[out[k - 1]]):
                k -= 1
            out.insert(k, i)
        return out

    def one(self, v):
        n = len(self.x)
        if not self.extrap:
            if bool(v < self.x[0]):
                if self.err:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return self.fill[0]
            if bool(v > self.x[-1]):
                if self.err:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return self.fill[1]
        for k in range(n - 1):
            if k == n - 2 or bool(v <= self.x[k + 1]):
                x0, x1, y0, y1 = self.x[k], self.x[k + 1], self.y[k], self.y[k + 1]
                return y0 + (y1 - y0) * ((v - x0) / (x1 - x0))

    def __call__(self, v):
        a = S.asarray(v)
        o = rnp.empty(a.shape, dtype=object)
        for ix in rnp.ndindex(*a.shape):
            o[ix] = self.one(a.a[ix])
        return S.SymArray(o, S.F8)


def interpolate_module():
    import scipy.interpolate as ri
    return _Module('scipy.interpolate', dict(interp1d=interp1d), ri, True)


# ------------------------------------------------- linear algebra as functions
_LC = {}


def matuf(name, arrs, fn, shapes, lows=None):
    """uninterpreted matrix function; numeric interpretation = the real routine"""
    ent = []
    ashapes = []
    for a in arrs:
        s = S.asarray(a)
        ashapes.append(s.shape)
        ent += [T.lift(v) for v in s.a.reshape(-1)]

    def call(vals):
        k = (name, tuple(ashapes), tuple(vals))
        if k not in _LC:
            if len(_LC) > 2000:
                _LC.clear()
            mats = []
            p = 0
            for sh in ashapes:
                n = int(rnp.prod(sh))
                mats.append(rnp.array(vals[p:p + n], dtype=float).reshape(sh))
                p += n
            r = fn(*mats)
            if not isinstance(r, tuple):
                r = (r,)
            _LC[k] = [rnp.asarray(x, dtype=float).reshape(-1) for x in r]
        return _LC[k]
    outs = []
    for oi, sh in enumerate(shapes):
        n = int(rnp.prod(sh)) if sh != () else 1
        o = rnp.empty(n, dtype=object)
        for i in range(n):
            o[i] = T.uf("%s%s_%d_%d" % (name, 'x'.join(str(d) for s in ashapes for d in s), oi, i), *[T.mk(e.d) if not isinstance(e, Term) else e for e in ent],
                        fn=(lambda *v, oi=oi, i=i: float(call(v)[oi][i])),
                        lo=(lows or {}).get(oi, -math.inf))
        outs.append(S.SymArray(o.reshape(sh), S.F8) if sh != () else o[0])
    return outs


def _sq(a):
    a = S.asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise rnp.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return a


def _rt(x):
    return S.wrap(x) if not isinstance(x, tuple) else tuple(S.wrap(v) for v in x)


def eigh(a, UPLO='L'):
    a = _sq(a)
    if not a.symbolic():
        return _rt(tuple(rnp.linalg.eigh(a.real_array(), UPLO)))
    n = a.shape[0]
    return tuple(matuf('eigh', [a], lambda m: tuple(rnp.linalg.eigh(m)), [(n,), (n, n)]))


def eigvalsh(a, UPLO='L'):
    return eigh(a)[0]


def svd(a, full_matrices=True, compute_uv=True, hermitian=False, **k):
    a = S.asarray(a)
    if not a.symbolic():
        r = rnp.linalg.svd(a.real_array(), full_matrices=full_matrices, compute_uv=compute_uv)
        return _rt(tuple(r)) if compute_uv else S.wrap(r)
    m, n = a.shape
    kk = min(m, n)
    shp = [(m, m), (kk,), (n, n)] if full_matrices else [(m, kk), (kk,), (kk, n)]
    out = matuf('svd%d' % bool(full_matrices), [a], lambda x: tuple(rnp.linalg.svd(x, full_matrices=full_matrices)), shp,
                lows={1: 0.0})
    return tuple(out) if compute_uv else out[1]


def qr(a, mode='reduced'):
    a = S.asarray(a)
    if not a.symbolic():
        r = rnp.linalg.qr(a.real_array(), mode)
        return _rt(tuple(r)) if mode != 'r' else S.wrap(r)
    m, n = a.shape
    kk = min(m, n)
    if mode not in ('reduced', 'complete'):
        raise Unsupported('qr mode')
    k1 = kk if mode == 'reduced' else m
    return tuple(matuf('qr' + mode, [a], lambda x: tuple(rnp.linalg.qr(x, mode)), [(m, k1), (k1, n)]))


def cholesky(a):
    a = _sq(a)
    if not a.symbolic():
        return S.wrap(rnp.linalg.cholesky(a.real_array()))
    n = a.shape[0]
    L = S.zeros((n, n))
    for j in range(n):
        s = a[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = T.sqrt(s)
        for i in range(j + 1, n):
            s = a[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            L[i, j] = s / L[j, j]
    return L


def det(a):
    a = _sq(a)
    if not a.symbolic():
        return float(rnp.linalg.det(a.real_array()))
    return _det([list(r) for r in a.a])


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        v = m[0][j]
        if not isinstance(v, (Term,)) and v == 0:
            continue
        r = r + (1 if j % 2 == 0 else -1) * v * _det([row[:j] + row[j + 1:] for row in m[1:]])
    return r


def inv(a):
    a = _sq(a)
    if not a.symbolic():
        return S.wrap(rnp.linalg.inv(a.real_array()))
    n = a.shape[0]
    if n > 3:
        return matuf('inv', [a], lambda x: rnp.linalg.inv(x), [(n, n)])[0]
    m = [list(r) for r in a.a]
    d = _det(m)
    o = rnp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1.0
            else:
                c = _det([row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j])
            o[i, j] = (1 if (i + j) % 2 == 0 else -1) * c / d
    return S.SymArray(o, S.F8)


def solve(a, b):
    return S.matmul(inv(a), b)


def pinv(a, *x, **k):
    a = S.asarray(a)
    if not a.symbolic():
        return S.wrap(rnp.linalg.pinv(a.real_array()))
    m, n = a.shape
    return matuf('pinv', [a], rnp.linalg.pinv, [(n, m)])[0]


def cond(a, p=None):
    a = S.asarray(a)
    if not a.symbolic():
        return float(rnp.linalg.cond(a.real_array(), p))
    return matuf('cond', [a], rnp.linalg.cond, [()], lows={0: 1.0})[0]


def norm(x, ord=None, axis=None, keepdims=False):
    x = S.asarray(x)
    if not x.symbolic():
        return S.wrap(rnp.linalg.norm(x.real_array(), ord, axis, keepdims))
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim == 2 and axis is None):
        raise Unsupported("norm ord")
    return S.sqrt(S.sum(S.square(x), axis=axis, keepdims=keepdims))


def lstsq(a, b, rcond=None):
    raise Unsupported("lstsq")


def ldl(A, lower=True, hermitian=True, overwrite_a=False, check_finite=True):
    import scipy.linalg as sl
    a = _sq(A)
    if not a.symbolic():
        return _rt(tuple(sl.ldl(a.real_array())))
    n = a.shape[0]
    L, D = matuf('ldl', [a], lambda m: tuple(sl.ldl(m)[:2]), [(n, n), (n, n)])
    return L, D, S.arange(n)


def linalg_dict():
    return dict(eigh=eigh, eigvalsh=eigvalsh, svd=svd, qr=qr, cholesky=cholesky, det=det, inv=inv,
                solve=solve, pinv=pinv, cond=cond, norm=norm, lstsq=lstsq,
                LinAlgError=rnp.linalg.LinAlgError,
                svdvals=lambda a: svd(a, compute_uv=False))


def modules(symbolic):
    """name -> module, for the import hook"""
    out = {}
    out.update(mp_modules())
    rnd = random_module()
    if symbolic:
        import scipy
        import scipy.linalg as sl
        import scipy.integrate as si
        lin = _Module('numpy.linalg', linalg_dict(), rnp.linalg, True)
        poly_leg = _Module('numpy.polynomial.legendre', dict(leggauss=roots_legendre),
                           rnp.polynomial.legendre, True)
        poly = _Module('numpy.polynomial', dict(legendre=poly_leg), rnp.polynomial, True)
        np_ = S.NumpyProxy(dict(linalg=lin, random=rnd, polynomial=poly))
        sp = special_module()
        st = stats_module()
        ip = interpolate_module()
        op = optimize_module(True)
        ig = _Module('scipy.integrate', dict(fixed_quad=fixed_quad), si, True)
        d = linalg_dict()
        d['ldl'] = ldl
        sl_ = _Module('scipy.linalg', d, sl, True)
        mt = _Module('math', dict(exp=T.exp, log=T.log, sqrt=T.sqrt, fabs=T.abs_, floor=T.floor_,
                                  sin=lambda v: T.trig('sin', v), cos=lambda v: T.trig('cos', v),
                                  isnan=lambda v: False if isinstance(v, Term) else math.isnan(v)), math, True)
    else:
        import scipy
        import scipy.special
        import scipy.stats
        import scipy.interpolate
        import scipy.linalg
        import scipy.integrate
        poly_leg = _Module('numpy.polynomial.legendre', dict(leggauss=roots_legendre), rnp.polynomial.legendre)
        poly = _Module('numpy.polynomial', dict(legendre=poly_leg), rnp.polynomial)
        np_ = _Module('numpy', dict(random=rnd, polynomial=poly), rnp)
        lin = rnp.linalg
        sp = _Module('scipy.special', dict(roots_legendre=roots_legendre, p_roots=roots_legendre), scipy.special)
        st = scipy.stats
        ip = scipy.interpolate
        op = optimize_module(False)
        ig = _Module('scipy.integrate', dict(fixed_quad=fixed_quad), scipy.integrate)
        sl_ = scipy.linalg
        mt = math
    scp = _Module('scipy', dict(special=sp, stats=st, optimize=op, integrate=ig, interpolate=ip, linalg=sl_),
                  scipy, symbolic)
    out.update({'numpy': np_, 'numpy.linalg': lin, 'numpy.random': rnd, 'numpy.polynomial': poly,
                'numpy.polynomial.legendre': poly_leg,
                'numpy.ma': np_.ma, 'scipy': scp, 'scipy.special': sp, 'scipy.stats': st,
                'scipy.optimize': op, 'scipy.optimize.optimize': op.optimize, 'scipy.integrate': ig,
                'scipy.interpolate': ip, 'scipy.linalg': sl_, 'math': mt})
    return out
