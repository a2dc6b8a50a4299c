"""Explore a property's scenarios symbolically, discharge its assertions with the
solver, and replay every counterexample on the real code."""
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import random
import re
import sys
import time
import traceback
import warnings

import numpy as rnp

from . import term as T
from . import z3enc, explore, loader, stubs
from . import sarray as S
from .term import Term, Bool, Unsupported
from .explore import Ctx, PathAbort, PathLimit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Inapplicable(Exception):
    """the scenario's entry point is not there any more (private helper gone)"""


# ------------------------------------------------------------------ helpers
class H:
    """mode independent vocabulary for scenarios"""

    def __init__(self, ctx, g, world, symbolic):
        self.ctx = ctx
        self.g = g
        self.w = world
        self.symbolic = symbolic
        self.np = g.np

    # inputs -------------------------------------------------------------
    def real(self, name, lo=-3.0, hi=3.0):
        return self.ctx.real(name, lo, hi)

    def cat(self, name, values):
        return self.ctx.cat(name, values)

    def choose(self, name, values):
        """an arbitrary member of a finite list (forks)"""
        values = list(values)
        if len(values) == 1:
            return values[0]
        i = self.ctx.cat(name, range(len(values)))
        return values[int(T.concretize(i)) if isinstance(i, Term) else int(i)]

    def arr(self, nested, dtype=float):
        if self.symbolic:
            x = S.array(nested)
            return S.array(x, dtype=dtype) if dtype is not None else x
        return rnp.array(nested, dtype=dtype)

    def reals(self, name, shape, lo=-3.0, hi=3.0):
        if isinstance(shape, int):
            shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for ix in rnp.ndindex(*shape):
            o[ix] = self.ctx.real(name + '_' + '_'.join(map(str, ix)), lo, hi)
        return self._mk(o, float)

    def cats(self, name, shape, values, dtype=int):
        """array of cells, each an arbitrary member of `values` (or per-cell callable)"""
        if isinstance(shape, int):
            shape = (shape,)
        o = rnp.empty(shape, dtype=object)
        for ix in rnp.ndindex(*shape):
            vs = values(ix) if callable(values) else values
            o[ix] = self.ctx.cat(name + '_' + '_'.join(map(str, ix)), vs)
        return self._mk(o, dtype)

    def _mk(self, o, dtype):
        if self.symbolic:
            return S.SymArray(o, rnp.dtype(dtype))
        return rnp.array(o.tolist(), dtype=dtype).reshape(o.shape)

    def nearest(self, x, options):
        """the option closest to x (at one sampled point)"""
        if not self.symbolic:
            return min(options, key=lambda o: abs(o - x))
        import random
        for env in self.ctx.sample_envs()[:1] or [self.ctx.rand_env(random.Random(3))]:
            try:
                v = T.evaluate(T.lift(x), env)
                return min(options, key=lambda o: abs(T.evaluate(T.lift(o), env) - v))
            except (T.NumError, KeyError):
                pass
        return options[0]

    def definition(self, x):
        """what a named intermediate value stands for"""
        return T.definition(x) if self.symbolic else x

    def uf(self, name, lo=0.05, hi=2.0, fn=None):
        """an arbitrary function with values in [lo,hi], applied elementwise (fn: its values in concrete runs)"""
        seed = int(hashlib.md5(name.encode()).hexdigest()[:6], 16)
        a, b, c = 0.7 + (seed % 97) / 120.0, 0.3 + (seed // 97 % 89) / 70.0, (seed % 31) / 7.0
        base = (lo + hi) / 2
        amp = (hi - lo) / 2 * 0.98

        def wave(*xs):
            s = c
            for i, x in enumerate(xs):
                s += (a + b * i) * x + 0.37 * math.cos(1.3 * x + i)
            return base + amp * math.sin(s)
        fn = fn or wave

        def f(*xs):
            if self.symbolic:
                return stubs.elementwise(lambda *v: T.uf('pos_' + name, *[T.lift(x) for x in v], lo=lo, hi=hi, fn=fn), *xs)
            if all(rnp.ndim(x) == 0 for x in xs):
                return rnp.float64(fn(*[float(x) for x in xs]))
            bs = rnp.broadcast_arrays(*xs)
            out = rnp.empty(bs[0].shape)
            for ix in rnp.ndindex(*bs[0].shape):
                out[ix] = fn(*[float(x[ix]) for x in bs])
            return out
        return f

    # scalars --------------------------------------------------------------
    def exp(self, x):
        return T.exp(x) if isinstance(x, Term) else math.exp(x)

    def log(self, x):
        if isinstance(x, Term):
            return T.log(x)
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def sqrt(self, x):
        return T.sqrt(x) if isinstance(x, Term) else (math.sqrt(x) if x >= 0 else math.nan)

    def expit(self, x):
        if isinstance(x, Term):
            return T.expit(x)
        return 1.0 / (1.0 + math.exp(-x)) if x > -700 else 0.0

    def cosh(self, x):
        return (self.exp(x) + self.exp(-x)) / 2

    def sin(self, x):
        return T.trig('sin', x) if isinstance(x, Term) else math.sin(x)

    def cos(self, x):
        return T.trig('cos', x) if isinstance(x, Term) else math.cos(x)

    def abs(self, x):
        return T.abs_(x) if isinstance(x, Term) else abs(x)

    def max(self, a, b):
        return T.smax(a, b)if isinstance(a, Term) or isinstance(b, Term) else max(a, b)

    def min(self, a, b):
        return T.smin(a, b) if isinstance(a, Term) or isinstance(b, Term) else min(a, b)

    def ite(self, c, a, b):
        return T.ite(c, a, b) if isinstance(c, Bool) else (a if c else b)

    def all(self, *bs):
        r = True
        for b in bs:
            r = T.band(r, b) if isinstance(b, Bool) or isinstance(r, Bool) else (bool(r) and bool(b))
        return r

    def any(self, *bs):
        r = False
        for b in bs:
            r = T.bor(r, b) if isinstance(b, Bool) or isinstance(r, Bool) else (bool(r) or bool(b))
        return r

    def neg(self, b):
        return T.bnot(b) if isinstance(b, Bool) else not b

    def implies(self, a, b):
        return self.any(self.neg(a), b)

    def sc(self, x):
        """python/symbolic scalar of a 0-d or one-element result"""
        if hasattr(x, '__symarray__'):
            if x.a.size != 1:
                raise ValueError('not a scalar')
            return x.a.reshape(-1)[0]
        if isinstance(x, rnp.ndarray):
            return x.reshape(-1)[0].item()
        if isinstance(x, rnp.generic):
            return float(x) if x.dtype.kind == 'f' else x.item()
        return x

    def lst(self, x):
        """nested python lists of scalars"""
        if hasattr(x, '__symarray__'):
            return x.a.tolist()
        if isinstance(x, rnp.ndarray):
            return (x.astype(float) if x.dtype == rnp.longdouble else x).tolist()
        if isinstance(x, (list, tuple)):
            return [self.lst(e) for e in x]
        return x

    def truth(self, b):
        """decide a condition on this path (forks when both outcomes are possible)"""
        return bool(b)

    def shape(self, x):
        return tuple(x.shape)

    def copy(self, x):
        return x.copy()

    # control ----------------------------------------------------------------
    def assume(self, b):
        self.ctx.assume(b)

    def check(self, name, b):
        self.ctx.check(name, b)

    def eq(self, name, a, b, tol=1e-6):
        self.ctx.check_eq(name, a, b, tol)

    def upto_sign(self, name, got, want):
        """matrices (lists of rows) equal up to the sign of each column"""
        n = len(want)
        for q in range(len(want[0]) if n else 0):
            for i in range(n):
                for j in range(i + 1):
                    self.ctx.check_eq('%s (column %d)' % (name, q), got[i][q] * got[j][q], want[i][q] * want[j][q], 1e-6)

    def reach(self, name='end'):
        self.ctx.reach(name)

    def private(self, mod, name):
        try:
            m = self.g.mod(mod)
        except ModuleNotFoundError:
            raise Inapplicable(mod)
        f = getattr(m, name, None)
        if f is None:
            raise Inapplicable("%s.%s" % (mod, name))
        return f

    def outcome(self, fn, *a, **k):
        """('ok', value) or ('raise', exception type name)"""
        try:
            return 'ok', fn(*a, **k)
        except (Unsupported, T.NumError, Inapplicable):
            raise
        except Exception as e:
            return 'raise', type(e).__name__

    def unchanged(self, name, before, after):
        self.eq(name, before, after)
        if hasattr(before, 'dtype'):
            self.check(name + ' dtype', before.dtype == after.dtype)

    def anew(self):
        """the repository loaded once more, with nothing called yet"""
        return loader.G(self.g.loader.__class__(*self.g.loader.made), self.w)

    loose_types = False      # alike: also arrays of different types

    def again(self, fn, between=None, second=None):
        """results of two calls of fn, the searches and seeded generators giving both the same answers"""
        c, w = self.ctx, self.w
        counters, rngs, n = dict(c.counters), list(w.rngs), len(w.records)
        a = fn()
        first = w.records[n:]
        if between is not None:
            between()
        c.counters, w.rngs = counters, rngs
        n = len(w.records)
        b = (second or fn)()
        self.check('same number of searches', len(w.records) - n == len(first))
        return a, b

    def alike(self, name, a, b, depth=0):
        """the same nested result; objects are compared by what arrays and numbers they hold"""
        if isinstance(a, dict):
            self.check(name + ': keys', isinstance(b, dict) and list(a) == list(b))
            for k in a:
                if k in b:
                    self.alike('%s %s' % (name, k), a[k], b[k], depth + 1)
        elif isinstance(a, (list, tuple)):
            self.check(name + ': length', type(a) is type(b) and len(a) == len(b))
            for i, (x, y) in enumerate(zip(a, b)):
                self.alike('%s[%d]' % (name, i), x, y, depth + 1)
        elif hasattr(a, 'dtype') and hasattr(a, 'shape'):
            self.check(name + ': shape and type', hasattr(b, 'dtype') and tuple(a.shape) == tuple(b.shape) and (a.dtype == b.dtype or self.loose_types))
            if hasattr(b, 'shape') and tuple(a.shape) == tuple(b.shape):
                self.eq(name, a, b)
        elif isinstance(a, (Term, Bool, int, float, rnp.number)):
            self.eq(name, a, b)
        elif a is None or isinstance(a, str):
            self.check(name, a == b)
        elif hasattr(a, '__dict__') and not callable(a) or (hasattr(a, '__dict__') and type(a).__name__ in ('LatentPDF', 'CubicSplinePDF')):
            if depth < 6:
                self.alike(name, {k: v for k, v in vars(a).items() if not callable(v)}, {k: v for k, v in vars(b).items() if not callable(v)}, depth + 1)

    def frozen(self, x):
        """a deep copy of an argument, for `kept`"""
        if isinstance(x, dict):
            return {k: self.frozen(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(self.frozen(v) for v in x)
        return x.copy() if hasattr(x, 'dtype') and hasattr(x, 'copy') else x

    def kept(self, name, before, after):
        if callable(before) and not hasattr(before, 'dtype'):
            self.check(name, before is after)
        else:
            self.alike(name, before, after)

    # objectives ---------------------------------------------------------------
    def same_objective(self, name, rec, spec, also_constant=False):
        """the recorded objective orders points as spec(eval) does.

        Decided as: objective - spec is the same at any two evaluated points (stronger);
        a difference is only reported when it also reverses an ordering.
        """
        ev = [e for e in rec.evals]
        if len(ev) < 2:
            raise Inapplicable("objective evaluated once")
        a, b = ev[0], ev[-1]
        fa, fb = self.sc(a.value), self.sc(b.value)
        sa, sb = spec(a), spec(b)
        self.ctx.check_order(name, fa, fb, sa, sb)

    def rec(self, i, kind=None):
        r = self.w.records
        if i >= len(r):
            raise Inapplicable("optimiser call %d missing" % i)
        return r[i]


# ---------------------------------------------------------- concrete context
class Fail(Exception):
    pass


class CCtx:
    """context of a run on the real code with the values of one model"""
    symbolic = False

    def __init__(self, env, rng=None, jitter=None, tol=None):
        self.envv = env or {}
        self.rng = rng or random.Random(1)
        self.jitter = jitter
        self.failures = []
        self.passed = 0
        self.counters = {}
        self.used = {}
        self.reached = set()
        self.tolx = tol

    def real(self, name, lo=-10.0, hi=10.0):
        if name in self.used:
            return self.used[name]
        if name in self.envv and not self.jitter:
            v = float(self.envv[name])
        elif name in self.envv and self.jitter == 'near':
            v = float(self.envv[name]) + self.rng.gauss(0, 0.05 * (min(hi, 5) - max(lo, -5)))
        else:
            v = self.rng.uniform(max(lo, -1e3), min(hi, 1e3))
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self._i(name, lambda: self.rng.randint(int(max(lo, -50)), int(min(hi, 50))))

    def _i(self, name, f):
        if name in self.used:
            return self.used[name]
        v = int(round(self.envv[name])) if name in self.envv else f()
        self.used[name] = v
        return v

    def cat(self, name, values):
        values = tuple(sorted(set(values)))
        if len(values) == 1:
            return values[0]
        return self._i(name, lambda: self.rng.choice(values))

    def boolean(self, name):
        return self.cat(name, (0, 1)) == 1

    def fresh(self, base, lo, hi):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return self.real("%s#%d" % (base, n), lo, hi)

    def fresh_cat(self, base, values):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return self.cat("%s#%d" % (base, n), values)

    def assume(self, b):
        if not bool(b):
            raise PathAbort()

    def check(self, name, b, tol=None):
        if hasattr(b, 'all') and not isinstance(b, bool):
            b = b.all()
        if bool(b):
            self.passed += 1
        else:
            self.failures.append((name, 'assertion false', 1.0))

    def check_eq(self, name, a, b, tol=1e-6):
        if self.tolx:
            tol = max(tol, self.tolx)
        fa, fb = explore.flat(a), explore.flat(b)
        if fa[0] != fb[0]:
            self.failures.append((name, 'shape %s vs %s' % (fa[0], fb[0]), 1.0))
            return
        for i, (x, y) in enumerate(zip(fa[1], fb[1])):
            nm = name if len(fa[1]) == 1 else "%s[%d]" % (name, i)
            if isinstance(x, (bool, rnp.bool_)) or isinstance(y, (bool, rnp.bool_)):
                ok = bool(x) == bool(y)
                d = 1.0
            elif x is None or y is None or isinstance(x, str) or isinstance(y, str):
                ok = x == y
                d = 1.0
            else:
                try:
                    x, y = float(x), float(y)
                except (TypeError, ValueError):
                    ok = x is y or x == y
                    d = 1.0
                    if not ok:
                        self.failures.append((nm, '%r != %r' % (x, y), d))
                    continue
                if x != x or y != y:
                    ok = x != x and y != y
                    d = 1.0
                elif math.isinf(x) or math.isinf(y):
                    ok = x == y
                    d = 1.0
                else:
                    d = abs(x - y) / (1 + abs(x) + abs(y))
                    ok = d <= tol
            if ok:
                self.passed += 1
            else:
                self.failures.append((nm, '%r != %r' % (x, y), d))

    def check_order(self, name, fa, fb, sa, sb):
        fa, fb, sa, sb = map(float, (fa, fb, sa, sb))
        if any(v != v for v in (fa, fb, sa, sb)):
            bad = any(v != v for v in (fa, fb)) and not any(v != v for v in (sa, sb))
            if bad:
                self.failures.append((name, 'objective is nan: %r %r (specification %r %r)' % (fa, fb, sa, sb), 1.0))
            return
        if any(math.isinf(v) for v in (fa, fb, sa, sb)):
            # (an objective that is infinite where the specification is nowhere near underflow)
            if max(abs(sa), abs(sb)) > 100 or not math.isinf(fa) != math.isinf(fb) or abs(sa - sb) < 1e-3:
                return
        df, ds = fa - fb, sa - sb
        t = 1e-7 * (1 + abs(fa) + abs(fb)) if not math.isinf(df) else 1.0
        u = 1e-7 * (1 + abs(sa) + abs(sb))
        if (df > t and ds < -u) or (df < -t and ds > u):
            self.failures.append((name, 'objective orders the points %r, %r but specification %r, %r' %
                                  (fa, fb, sa, sb), 1.0))
        else:
            self.passed += 1

    def reach(self, name):
        self.reached.add(name)

    def observe(self, *a):
        pass


# ------------------------------------------------------------------- one run
class Run:
    def __init__(self, seed, deadline, branch_ms=4000, check_ms=8000):
        self.seed = seed
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.check_ms = check_ms
        self.stats = dict(branches=0, checks=0, discharged=0, syntactic=0, selfchecks=0, candidates=0,
                          selfcheck_fail=0)
        self.reached = set()


def scenario_fn(modname, fn):
    m = importlib.import_module('checks.' + modname)
    return getattr(m, fn)


def _in_repo(tb):
    r = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(loader.REPO):
            r = True
        tb = tb.tb_next
    return r


def run_symbolic(cfg, run, prefix):
    """one path; returns (ctx, status, info)"""
    ctx = Ctx(run, prefix)
    ctx.merge = bool(cfg.get('merge'))
    ctx.sym_unique = bool(cfg.get('sym_unique'))
    T.EXP_DEN[0] = int(cfg.get('exp_den', 1))
    T.Fork.ctx = ctx
    w = stubs.new_world(ctx, True)
    _apply_world(w, cfg)
    g = loader.G(loader.Loader(True, _overrides(cfg)), w)
    h = H(ctx, g, w, True)
    fn = scenario_fn(cfg['module'], cfg['fn'])
    try:
        with rnp.errstate(all='ignore'):
            fn(h, g, **cfg.get('args', {}))
        return ctx, 'done', None
    except PathAbort:
        return ctx, 'abort', None
    except PathLimit:
        return ctx, 'limit', None
    except Inapplicable as e:
        return ctx, 'inapplicable', str(e)
    except (Unsupported, T.NumError) as e:
        return ctx, 'unsupported', '%s: %s' % (e, _where(e))
    except RecursionError as e:
        return ctx, 'unsupported', 'recursion'
    except Exception as e:
        return ctx, 'exception', (type(e).__name__, str(e)[:300], _in_repo(e.__traceback__),
                                  ''.join(traceback.format_exc()[-1500:]))
    finally:
        pass


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if f.filename.startswith(loader.REPO) or '/checks/' in f.filename:
            return '%s:%d' % (f.filename, f.lineno)
    return ''


def _overrides(cfg):
    ov = cfg.get('overrides')
    if not ov:
        return None
    return scenario_fn(cfg['module'], ov)


def _apply_world(w, cfg):
    for k, v in (cfg.get('world') or {}).items():
        setattr(w, k, v)
    T.NAMING = w.naming if w.symbolic else None


def run_concrete(cfg, env, rng=None, jitter=None, trace=None, tol=None):
    """execute the scenario on the real code; returns CCtx and optional exception"""
    ctx = CCtx(env, rng, jitter, tol)
    saved = T.Fork.ctx
    T.Fork.ctx = None
    w = stubs.new_world(ctx, False)
    _apply_world(w, cfg)
    ov = _overrides(cfg)
    g = loader.G(loader.Loader(False, ov), w)
    h = H(ctx, g, w, False)
    fn = scenario_fn(cfg['module'], cfg['fn'])
    exc = None
    try:
        with warnings.catch_warnings(), rnp.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            if trace is not None:
                sys.setprofile(trace)
            try:
                fn(h, g, **cfg.get('args', {}))
            finally:
                sys.setprofile(None)
    except PathAbort:
        exc = 'abort'
    except Inapplicable:
        exc = 'inapplicable'
    except Unsupported as e:
        exc = 'inapplicable'
    except Exception as e:
        exc = (type(e).__name__, str(e)[:300], _in_repo(e.__traceback__))
    finally:
        T.Fork.ctx = saved
    return ctx, exc


def bad(cctx, exc, want_exc=None):
    """does this concrete run violate the property?"""
    if exc in ('abort', 'inapplicable'):
        return None
    if exc is not None:
        if exc[2]:
            return 'raised %s: %s' % exc[:2]
        if not cctx.failures:
            return None
    if cctx.failures:
        n, why, d = cctx.failures[0]
        return '%s: %s' % (n, why)
    return None


def try_replay(cfg, points, seed, tries=120, budget=20.0):
    """turn model points into a failing run of the real code"""
    t0 = time.time()
    for p in points:
        c, e = run_concrete(cfg, p, random.Random(seed))
        b = bad(c, e)
        if b:
            return dict(c.used), b
    rng = random.Random(seed + 5)
    for i in range(tries):
        if time.time() - t0 > budget:
            break
        base = points[i % len(points)] if points else {}
        mode = rng.random()
        if mode < .4:
            env, j = dict(base), 'near'
        elif mode < .8:
            env, j = {k: v for k, v in base.items() if not isinstance(v, float)}, None
        else:
            env, j = {}, None
        c, e = run_concrete(cfg, env, random.Random(seed + 1000 + i), jitter=j)
        b = bad(c, e)
        if b:
            # confirm exactly
            c2, e2 = run_concrete(cfg, c.used, random.Random(1))
            b2 = bad(c2, e2)
            if b2:
                return dict(c.used), b2
    return None


def run_config(task):
    cfg, seed, budget, opts = task
    try:
        return _run_config(cfg, seed, budget, opts)
    except BaseException as e:     # never lose a worker silently
        return dict(config=cfg['name'], error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:]))


def _run_config(cfg, seed, budget, opts):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    rss_limit = opts.get('rss_mb', 3500)
    run = Run(seed, t0 + budget * 0.75, cfg.get('branch_ms', 4000), cfg.get('check_ms', 8000))
    stack = [[]]
    out = dict(config=cfg['name'], paths=0, aborted=0, unsupported=[], inapplicable=[], incomplete=False,
               violations=[], undecided=[], validated=0, samples=[], exceptions=[], functions=[],
               validation_mismatch=[])
    funcs = set()

    def trace(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(loader.REPO):
                funcs.add('%s:%s' % (os.path.relpath(co.co_filename, loader.REPO), co.co_qualname))
    max_paths = cfg.get('max_paths', 100000)
    max_val = opts.get('max_validate', 12)
    maxviol = 2
    t_limit = t0 + budget
    while stack:
        if time.time() > run.deadline or out['paths'] >= max_paths or len(out['violations']) >= maxviol:
            out['incomplete'] = True
            break
        prefix = stack.pop()
        T.reset()
        explore._EQ.clear()
        ctx, status, info = run_symbolic(cfg, run, prefix)
        stack.extend(ctx.new_branches)
        if status == 'abort':
            out['aborted'] += 1
            continue
        if status == 'limit':
            out['incomplete'] = True
            continue
        out['paths'] += 1
        cands = list(ctx.results)
        try:
            wits = ctx.sample_envs(2)
        except Exception:
            wits = []
        T.Fork.ctx = None
        if status == 'unsupported':
            out['unsupported'].append(info)
        elif status == 'inapplicable':
            out['inapplicable'].append(info)
        elif status == 'exception':
            pts = wits or [{}]
            r = try_replay(cfg, pts[:2], seed, tries=3) if info[2] else None
            if r:
                out['violations'].append(dict(what=r[1], env=r[0], config=cfg['name'], check='exception'))
                continue
            out['exceptions'].append('%s: %s @ %s' % (info[0], info[1], info[3][-600:]))
        for c in cands:
            if len(out['violations']) >= maxviol:
                break
            pts = list(c['points']) or wits[:1] or [{}]
            left = max(1.0, min(20.0, t_limit - time.time()))
            r = try_replay(cfg, pts, seed, tries=60 if c['points'] else 20, budget=left)
            if r:
                out['violations'].append(dict(what=r[1], env=r[0], config=cfg['name'], check=c['name'],
                                              goal=c.get('goal')))
            else:
                out['undecided'].append(dict(check=c['name'], verdict=c['verdict'], goal=c.get('goal'),
                                             config=cfg['name']))
                if len(out['undecided']) > 40:
                    out['incomplete'] = True
                    stack = []
                    break
        # cross-validate the path on the real code
        if wits and (out['validated'] < max_val) and not out['violations']:
            c, e = run_concrete(cfg, wits[0], random.Random(seed), trace=trace if out['validated'] == 0 else None)
            b = bad(c, e)
            out['validated'] += 1
            if b is not None and (e is not None or any(f[2] > 1e-4 for f in c.failures)):
                # must persist under perturbation of the reals
                ok = 0
                if e is None and wits[0] and any(isinstance(v, float) for v in wits[0].values()):
                    for k in range(3):
                        c2, e2 = run_concrete(cfg, wits[0], random.Random(seed + k), jitter='near')
                        if bad(c2, e2) and any(f[2] > 1e-4 for f in c2.failures):
                            ok += 1
                else:
                    ok = 1
                if ok:
                    out['violations'].append(dict(what=b, env=dict(c.used), config=cfg['name'],
                                                  check='solver-chosen witness of a path'))
                else:
                    out['validation_mismatch'].append(b)
            if len(out['samples']) < 2:
                out['samples'].append({k: (round(v, 6) if isinstance(v, float) else v)
                                       for k, v in list(c.used.items())[:24]})
        if rss_mb() > rss_limit:
            out['incomplete'] = True
            break
    out['pending'] = len(stack)
    out['stats'] = run.stats
    out['z3'] = dict(z3enc.STATS)
    out['reached'] = sorted(run.reached)
    out['functions'] = sorted(funcs)
    out['wall'] = time.time() - t0
    return out


def rss_mb():
    try:
        with open('/proc/self/statm') as f:
            return int(f.read().split()[1]) * 4096 / 1e6
    except OSError:
        return 0


# -------------------------------------------------------------------- driver
def main(prop, tier, seed, only=None, verbose=False, procs=None):
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    cfgs = mod.configs(tier)
    for c in cfgs:
        c.setdefault('module', prop.lower())
    if only:
        cfgs = [c for c in cfgs if only in c['name']]
    total = {'quick': 150.0, 'thorough': 780.0}[tier]
    if os.environ.get('SYMX_BUDGET'):
        total = float(os.environ['SYMX_BUDGET'])
    n = procs or min(8, os.cpu_count() or 2, max(1, len(cfgs)))
    waves = max(1, math.ceil(len(cfgs) / n))
    per = getattr(mod, 'BUDGET', {}).get(tier) or max(20.0, total / waves * 1.0)
    cfgs.sort(key=lambda c: -c.get('cost', 1))
    tasks = [(c, seed, min(c.get('budget', per), total), dict(max_validate=10 if tier == 'quick' else 40))
             for c in cfgs]
    results = []
    deadline = t0 + total + 45
    if n == 1 or len(cfgs) == 1 and verbose:
        for t in tasks:
            results.append(run_config(t))
            if verbose:
                show(results[-1])
    else:
        mp = multiprocessing.get_context('fork')
        results = pool(mp, tasks, n, deadline, verbose)
    return finish(prop, tier, seed, mod, cfgs, results, t0, verbose)


def _child(conn, task):
    r = run_config(task)
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(config=task[0]['name'], error='send: %s' % e))
    conn.close()


def pool(mp, tasks, n, deadline, verbose):
    """fresh process per task, hard time limit"""
    pend = list(tasks)
    live = []
    out = []
    while pend or live:
        while pend and len(live) < n and time.time() < deadline:
            t = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, t), daemon=True)
            p.start()
            b.close()
            live.append((p, a, t, time.time()))
        if pend and time.time() >= deadline:
            for t in pend:
                out.append(dict(config=t[0]['name'], error='not started: time budget'))
            pend = []
        nl = []
        for p, a, t, s in live:
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(config=t[0]['name'], error='worker ended')
                out.append(r)
                if verbose:
                    show(r)
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out.append(dict(config=t[0]['name'], error='worker died (exit %s)' % p.exitcode))
                if verbose:
                    show(out[-1])
            elif time.time() > min(s + t[2] * 1.5 + 30, deadline + 20):
                p.kill()
                out.append(dict(config=t[0]['name'], error='time limit'))
                if verbose:
                    show(out[-1])
            else:
                nl.append((p, a, t, s))
        live = nl
    return out


def show(r):
    if 'error' in r:
        print('  [%s] ERROR %s' % (r['config'], r['error']), flush=True)
        return
    s = r['stats']
    print('  [%s] paths=%d%s checks=%d discharged=%d cand=%d viol=%d undec=%d unsup=%d exc=%d val=%d selffail=%d %.1fs' % (
        r['config'], r['paths'], '+%d' % r['pending'] if r['incomplete'] else '', s['checks'], s['discharged'],
        s['candidates'], len(r['violations']), len(r['undecided']), len(r['unsupported']), len(r['exceptions']),
        r['validated'], s.get('selfcheck_fail', 0), r['wall']), flush=True)
    for v in r['violations']:
        print('     VIOL', v['check'], '|', v['what'][:300], {k: (round(x, 4) if isinstance(x, float) else x) for k, x in list(v['env'].items())[:30]})
    for v in r['undecided'][:4]:
        print('     UNDEC', v['check'], v['verdict'], str(v['goal'])[:400])
    for v in sorted(set(r['unsupported']))[:4]:
        print('     UNSUP', v)
    for v in sorted(set(r['inapplicable']))[:4]:
        print('     INAPP', v)
    for v in r['exceptions'][:2]:
        print('     EXC', v)
    for v in r['validation_mismatch'][:2]:
        print('     MISMATCH', v)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN:'):
                f = dict(re.findall(r'(property|config|check)=(.*?)(?= (?:config|check)=|$)', line[6:].split('|')[0].strip()))
                if f.get('property') == prop:
                    f['text'] = line.split('|', 1)[1].strip() if '|' in line else ''
                    out.append(f)
    return out


def is_known(v, known):
    for k in known:
        if k.get('config') in (None, v['config']) and k.get('check', '') in v['what']:
            return k
    return None


def finish(prop, tier, seed, mod, cfgs, results, t0, verbose):
    viols = []
    agg = dict(branches=0, checks=0, discharged=0, syntactic=0, selfchecks=0, candidates=0, selfcheck_fail=0)
    z = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, max=0.0)
    paths = validated = 0
    funcs, samples, undec, unsup, errs, reached, incompl, inapp = set(), [], [], [], [], set(), [], []
    for r in results:
        if 'error' in r:
            errs.append('%s: %s' % (r['config'], r['error'][:400]))
            continue
        for v in r['violations']:
            viols.append(v)
        for k in agg:
            agg[k] += r['stats'].get(k, 0)
        for k in ('queries', 'unsat', 'sat', 'unknown', 'time'):
            z[k] += r['z3'].get(k, 0)
        z['max'] = max(z['max'], r['z3'].get('max', 0))
        paths += r['paths']
        validated += r['validated']
        funcs.update(r['functions'])
        for s in r['samples'][:1]:
            samples.append(dict(config=r['config'], model=s))
        undec += r['undecided']
        unsup += ['%s: %s' % (r['config'], u) for u in sorted(set(r['unsupported']))]
        inapp += ['%s: %s' % (r['config'], u) for u in sorted(set(r['inapplicable']))]
        errs += ['%s: %s' % (r['config'], e[:300]) for e in r['exceptions']]
        reached.update(r['reached'])
        if r['incomplete']:
            incompl.append('%s (%d paths explored, %d prefixes left)' % (r['config'], r['paths'], r['pending']))
    known = known_findings(prop)
    new, seen_known = [], {}
    for v in viols:
        k = is_known(v, known)
        if k is not None:
            seen_known[k['text']] = v
        else:
            new.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    rc = 0
    if new:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        cmap = {c['name']: c for c in cfgs}
        for i, v in enumerate(new[:4]):
            cfg = cmap[v['config']]
            path = os.path.join(d, '%s_%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, config=v['config'], check=v['check'], what=v['what'],
                               env=v['env'], goal=v.get('goal')), f, indent=1, default=str)
            print('  %s [%s] %s -> %s' % (prop, v['config'], v['check'], v['what'][:300]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    undc = len(undec) + len(unsup) + len(errs) + len(incompl) + len(inapp)
    cov = dict(
        states=paths, transitions=agg['branches'], traces_validated_against_impl=validated,
        samples=samples[:8],
        assertions_checked=agg['checks'], assertions_discharged=agg['discharged'],
        discharged_by_normal_form=agg['syntactic'], numeric_selfchecks=agg['selfchecks'],
        selfcheck_failures=agg['selfcheck_fail'],
        counterexample_candidates=agg['candidates'],
        smt_queries=z['queries'], smt_unsat=z['unsat'], smt_sat=z['sat'], smt_unknown=z['unknown'],
        solver_time_s=round(z['time'], 3), longest_query_s=round(z['max'], 3),
        functions_encoded=sorted(funcs), bounds=getattr(mod, 'BOUNDS', ''),
        configurations=[c['name'] for c in cfgs],
        not_decided=dict(unknown=undec[:10], unsupported=unsup[:10], errors=errs[:10],
                         incomplete=incompl[:10], inapplicable=inapp[:10]),
        exhaustive=(undc == 0),
        explanation=getattr(mod, 'EXPLANATION', mod.__doc__ or ''),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d configurations, %d paths, %d/%d assertions discharged, %d smt queries (%.1fs), %d validated runs, '
          '%d not decided, %d violations, %.1fs' % (
              prop, tier, len(cfgs), paths, agg['discharged'], agg['checks'], z['queries'], z['time'], validated,
              undc, len(new), time.time() - t0))
    if undc and not rc:
        print('INCONCLUSIVE parts: %s' % '; '.join((incompl + unsup + inapp + errs +
                                                    ['%s/%s' % (u['config'], u['check']) for u in undec])[:6])[:900])
    return rc


def replay(path):
    d = json.load(open(path))
    prop = d['property']
    mod = importlib.import_module('checks.' + prop.lower())
    for tier in (d.get('tier', 'quick'), 'thorough', 'quick'):
        for c in mod.configs(tier):
            c.setdefault('module', prop.lower())
            if c['name'] == d['config']:
                ctx, exc = run_concrete(c, d['env'], random.Random(1))
                b = bad(ctx, exc)
                print('inputs:', json.dumps(ctx.used, default=str)[:2000])
                print('result:', b or 'property holds on this input')
                return 1 if b else 0
    print('configuration not found')
    return 2
