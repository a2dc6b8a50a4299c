"""Path exploration by re-execution, and the scenario context (symbolic mode)."""
import itertools
import math
import random
import time
from fractions import Fraction

from . import term as T
from . import z3enc


class PathAbort(BaseException):
    """assumption violated on this path"""


class PathLimit(BaseException):
    pass


class Ctx:
    """symbolic context"""
    symbolic = True

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.decisions = []
        self.new_branches = []
        self.pc = []
        self.pckeys = {}
        self.dom = {}            # int var name -> set of remaining values
        self.vars = {}
        self.envlog = []
        self.results = []        # (name, verdict, info)
        self.witness = None
        self.notes = set()
        self._pos = {}
        self.counters = {}
        self.rng = random.Random(run.seed)
        self.samples = None
        self.obs = []

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=-10.0, hi=10.0):
        t = T.var(name, lo, hi)
        self.vars[name] = ('R', lo, hi, None)
        return t

    def int(self, name, lo, hi):
        t = T.var(name, lo, hi, isint=True)
        self.vars[name] = ('I', lo, hi, None)
        return t

    def cat(self, name, values):
        values = tuple(sorted(set(values)))
        if len(values) == 1:
            return values[0]
        t = T.var(name, isint=True, domain=values)
        self.vars[name] = ('I', min(values), max(values), values)
        self.dom.setdefault(name, set(values))
        return t

    def boolean(self, name):
        return self.cat(name, (0, 1)) == 1

    def fresh(self, base, lo, hi):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return self.real("%s#%d" % (base, n), lo, hi)

    def fresh_cat(self, base, values):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return self.cat("%s#%d" % (base, n), values)

    # ----------------------------------------------------------- control
    def assume(self, b):
        if isinstance(b, T.Term):
            b = b != 0
        if not isinstance(b, T.Bool):
            if not b:
                raise PathAbort()
            return
        b = self.simplify(b)
        if b is True:
            return
        if b is False:
            raise PathAbort()
        if not self._witness(b):
            v, env = z3enc.solve(self.pc + [b], self.run.branch_ms)
            if v == 'unsat':
                raise PathAbort()
        self.add_pc(b)

    def _witness(self, b):
        """a concrete point satisfies the path condition and b (then no query is needed)"""
        rng = random.Random(self.run.seed + 23 + len(self.pc))
        cands = list(self.samples[1]) if self.samples is not None else []
        for i in range(len(cands) + 12):
            e = self.rand_env(rng)
            if i < len(cands):
                e.update(cands[i])
            try:
                if T.evalb(b, e, {}) and self.sat_env(e):
                    return True
            except (T.NumError, KeyError):
                continue
        return False

    def add_pc(self, b):
        if b.op == 'and':
            for x in b.args:
                self.add_pc(x)
            return
        if b.key in self.pckeys:
            return
        self.pc.append(b)
        self.pckeys[b.key] = True
        if b.op in ('<', '<='):
            T.note_fact(b)
        n = T.bnot(b)
        if isinstance(n, T.Bool):
            self.pckeys[n.key] = False
        # finite-domain propagation
        self._dom_update(b, True)

    def _simple(self, b):
        """comparison over one finite-domain variable -> (name, predicate)"""
        if b.op == 'not':
            s = self._simple(b.args)
            if s is None:
                return None
            nm, f = s
            return nm, (lambda v, f=f: not f(v))
        if b.op in ('and', 'or'):
            parts = [self._simple(x) for x in b.args]
            if any(p is None for p in parts) or len({p[0] for p in parts}) != 1:
                return None
            fs = [p[1] for p in parts]
            if b.op == 'and':
                return parts[0][0], (lambda v: all(f(v) for f in fs))
            return parts[0][0], (lambda v: any(f(v) for f in fs))
        t = b.args
        nm = None
        for m in t.d:
            for a, e in m:
                at = T._ATOMS[a]
                if at.kind != 'var' or at.name not in self.dom or e < 0:
                    return None
                if nm is not None and nm != at.name:
                    return None
                nm = at.name
        if nm is None:
            return None
        items = [(sum(e for a, e in m), c) for m, c in t.d.items()]
        op = b.op

        def f(v):
            s = sum(c * v ** e for e, c in items)
            return s < 0 if op == '<' else (s <= 0 if op == '<=' else s == 0)
        return nm, f

    def _dom_update(self, b, val):
        s = self._simple(b)
        if s is not None:
            nm, f = s
            self.dom[nm] = {v for v in self.dom[nm] if f(v) == val}

    def simplify(self, b):
        k = self.pckeys.get(b.key)
        if k is not None:
            return k
        if b.op == 'and':
            return T.band(*[self._s(x) for x in b.args])
        if b.op == 'or':
            return T.bor(*[self._s(x) for x in b.args])
        s = self._simple(b)
        if s is not None:
            nm, f = s
            vs = {f(v) for v in self.dom[nm]}
            if vs == {True}:
                return True
            if vs == {False}:
                return False
        return b

    def _s(self, x):
        return self.simplify(x) if isinstance(x, T.Bool) else x

    def branch(self, b):
        b = self.simplify(b)
        if isinstance(b, bool):
            return b
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            self.add_pc(b if v else self._neg(b))
            return v
        if time.time() > self.run.deadline:
            raise PathLimit()
        nb = self._neg(b)
        simple = self._simple(b)
        self.run.stats['branches'] += 1
        if simple is not None and self._independent(simple[0]):
            f1 = f0 = True
        else:
            r1, e1 = z3enc.solve(self.pc + [b], self.run.branch_ms, want_model=False)
            f1 = r1 != 'unsat'
            if f1:
                r0, e0 = z3enc.solve(self.pc + [nb], self.run.branch_ms, want_model=False)
                f0 = r0 != 'unsat'
            else:
                f0 = True
            if f1 and f0 and ('unknown' in (r1, r0)):
                self.notes.add('branch-feasibility-unknown')
        if f1 and f0:
            self.new_branches.append(self.decisions + [False])
            self.decisions.append(True)
            self.add_pc(b)
            return True
        self.decisions.append(f1)
        self.add_pc(b if f1 else nb)
        return f1

    def _neg(self, b):
        n = T.bnot(b)
        return n

    def _independent(self, nm):
        """no path condition couples nm with anything else"""
        for p in self.pc:
            s = self._simple(p)
            if s is None and nm in T.collect_vars(p):
                return False
        return True

    def concretize(self, t):
        """enumerate the finite values of an integer term by forking"""
        if not T.is_int(t):
            raise T.Unsupported("concretise real value")
        vs = T.collect_vars(t)
        sv = T.single_int_var(t)
        # affine in one finite variable
        if len(vs) == 1:
            nm, a = next(iter(vs.items()))
            if nm in self.dom:
                for v in sorted(self.dom[nm]):
                    if len(self.dom[nm]) == 1 or self.branch(T.cmp_(T.atom_term(a), v, '==')):
                        r = T.evaluate(t, {nm: v})
                        return int(round(r))
        lo, hi = T.interval(t)
        if not (hi - lo <= 64):
            raise T.Unsupported("concretise unbounded integer")
        for v in range(math.ceil(lo), math.floor(hi) + 1):
            c = T.cmp_(t, v, '==')
            if c is True:
                return v
            if c is False:
                continue
            if self.branch(c):
                return v
        raise PathAbort()

    def proves_positive(self, at, ms=3000):
        return self._proves(at, '+', ms)

    def proves_negative(self, at, ms=3000):
        return self._proves(at, '-', ms)

    def _proves(self, at, s, ms=3000):
        key = (at.id, s, len(self.pc), ms)
        r = self._pos.get(key)
        if r is None:
            t = T.atom_term(at)
            # cheap refutation by sampling
            r = True
            for env in self.sample_envs():
                try:
                    v = T.evaluate(t, env)
                except (T.NumError, KeyError):
                    continue
                if (v <= 1e-14 if s == '+' else v >= -1e-14):
                    r = False
                    break
            if r:
                goal = T.cmp0({m: (-c if s == '-' else c) for m, c in t.d.items()}, '<=')
                if goal is False:
                    r = True
                elif goal is True:
                    r = False
                else:
                    v, _ = z3enc.solve(self.pc + [goal], ms, want_model=False)
                    r = v == 'unsat'
            self._pos[key] = r
        return r

    # ------------------------------------------------------------ sampling
    def rand_env(self, rng, base=None, pinned=()):
        env = {}
        for nm, (k, lo, hi, dom) in self.vars.items():
            if base is not None and nm in base and (nm in pinned or rng.random() < 0.25):
                env[nm] = base[nm]
            elif nm in self.dom:
                env[nm] = rng.choice(sorted(self.dom[nm]))
            elif k == 'I':
                l = max(lo, -50)
                h = min(hi, 50)
                env[nm] = rng.randint(int(l), int(h))
            else:
                l, h = max(lo, -1e3), min(hi, 1e3)
                env[nm] = rng.uniform(l, h)
        return env

    def sat_env(self, env):
        try:
            memo = {}
            return all(T.evalb(p, env, memo) for p in self.pc)
        except (T.NumError, KeyError):
            return False

    def sample_envs(self, n=4):
        """a few concrete points satisfying the path condition"""
        key = (len(self.pc), len(self.vars))
        if self.samples is not None and self.samples[0] == key:
            return self.samples[1]
        out = []
        rng = random.Random(self.run.seed + 17)
        if self.samples is not None:
            for e in self.samples[1]:
                e2 = dict(self.rand_env(rng))
                e2.update(e)
                if self.sat_env(e2):
                    out.append(e2)
        tries = 0
        while len(out) < n and tries < 40:
            tries += 1
            e = self.rand_env(rng)
            if self.sat_env(e):
                out.append(e)
        if not out and self.pc:
            v, m = z3enc.solve(self.pc, 3000)
            if v == 'sat':
                for _ in range(30):
                    e = self.rand_env(rng)
                    e.update({k: x for k, x in m.items() if k in self.vars})
                    if self.sat_env(e):
                        out.append(e)
                        break
                    # mix: keep the model on the path-condition variables only
                    pv = set()
                    for p in self.pc:
                        pv.update(T.collect_vars(p))
                    e = self.rand_env(rng)
                    e.update({k: x for k, x in m.items() if k in pv})
                    if self.sat_env(e):
                        out.append(e)
                        break
        self.samples = (key, out)
        return out

    # ------------------------------------------------------------- checks
    def check(self, name, b, tol=None):
        st = self.run.stats
        st['checks'] += 1
        if isinstance(b, T.Term):
            b = b != 0
        if not isinstance(b, T.Bool):
            if hasattr(b, '__symarray__'):
                b = b.all()
            if not isinstance(b, T.Bool):
                ok = bool(b)
                if ok:
                    st['discharged'] += 1
                    st['syntactic'] += 1
                else:
                    self.candidate(name, None, None)
                return
        nb = T.bnot(b)
        v, env = z3enc.solve(self.pc + [nb], self.run.check_ms)
        if v == 'unsat':
            st['discharged'] += 1
            return
        self.candidate(name, nb, env, v)

    def check_eq(self, name, a, b, tol=1e-6):
        """a == b for every value; scalars or (nested) sequences/arrays"""
        fa, fb = flat(a), flat(b)
        if fa[0] != fb[0]:
            self.check("%s: shape %s vs %s" % (name, fa[0], fb[0]), False)
            return
        for i, (x, y) in enumerate(zip(fa[1], fb[1])):
            nm = name if len(fa[1]) == 1 else "%s[%d]" % (name, i)
            self._eq1(nm, x, y, tol)

    def _eq1(self, name, x, y, tol):
        st = self.run.stats
        if isinstance(x, T.Bool) or isinstance(y, T.Bool):
            self.check(name, T.bnot(T.bor(T.band(x, T.bnot(y)), T.band(y, T.bnot(x)))))
            return
        st['checks'] += 1
        lx, ly = T.lift(x), T.lift(y)
        if lx is NotImplemented or ly is NotImplemented:
            if x is y or x == y:
                st['discharged'] += 1
            else:
                self.candidate(name, None, None)
            return
        if not isinstance(lx, T.Term) or not isinstance(ly, T.Term):
            same = (not isinstance(lx, T.Term) and not isinstance(ly, T.Term) and
                    (lx == ly or (lx != lx and ly != ly) or close(lx, ly, tol)))
            if same:
                st['discharged'] += 1
                st['syntactic'] += 1
            else:
                self.candidate(name, None, None)
            return
        goal, how = self.neq_goal(lx, ly, tol)
        # numeric cross-check of the normal form against direct evaluation
        for env in self.sample_envs()[:2]:
            try:
                vx, vy = T.evaluate(lx, env), T.evaluate(ly, env)
            except (T.NumError, KeyError):
                continue
            st['selfchecks'] += 1
            if goal is False and abs(vx - vy) > 1e-5 * (1 + abs(vx) + abs(vy)):
                raise AssertionError("engine self-check failed: %s %r %r" % (name, vx, vy))
        if goal is False:
            # rational normal forms coincide; the solver is asked as well when the
            # un-normalised disequality is small
            st['discharged'] += 1
            st['syntactic'] += 1
            self.second_opinion(lx, ly)
            return
        v = env = None
        hit = self.hunt(lambda e, m: abs(T.evaluate(lx, e, m) - T.evaluate(ly, e, m)) >
                        tol * (1 + abs(T.evaluate(lx, e, m)) + abs(T.evaluate(ly, e, m))), 60)
        if hit is not None:
            # let the solver confirm the disequality at that point
            self.candidate(name, None, hit, 'sat', exact=True)
            return
        v, env = z3enc.solve(self.pc + [goal], self.run.check_ms)
        if v == 'unsat':
            st['discharged'] += 1
            return
        self.candidate(name, goal, env, v)

    def second_opinion(self, lx, ly):
        st = self.run.stats
        if st.get('asked', 0) >= 40 or len(lx.d) + len(ly.d) > 40:
            return
        st['asked'] = st.get('asked', 0) + 1
        v, _ = z3enc.solve([], 300, want_model=False, neq=(lx, ly))
        st['smt_' + v] = st.get('smt_' + v, 0) + 1

    def check_order(self, name, fa, fb, sa, sb):
        """f and s order the two points the same way"""
        st = self.run.stats
        vals = [T.lift(v) for v in (fa, fb, sa, sb)]
        st['checks'] += 1
        if any(not isinstance(v, T.Term) for v in vals):
            f_bad = any(not isinstance(v, T.Term) for v in vals[:2])
            s_bad = any(not isinstance(v, T.Term) for v in vals[2:])
            if f_bad and not s_bad:
                self.candidate(name, None, None)
            else:
                st['discharged'] += 1
            return
        fa, fb, sa, sb = vals
        df = fa - fb
        ds = sa - sb
        df, ds = T.lift(df), T.lift(ds)
        goal, how = self.neq_goal(df, ds, 1e-6)
        if goal is False:
            for env in self.sample_envs()[:1]:
                try:
                    vx, vy = T.evaluate(df, env), T.evaluate(ds, env)
                except (T.NumError, KeyError):
                    continue
                st['selfchecks'] += 1
                if abs(vx - vy) > 1e-5 * (1 + abs(vx) + abs(vy)):
                    raise AssertionError("engine self-check failed: %s %r %r" % (name, vx, vy))
            st['discharged'] += 1
            st['syntactic'] += 1
            self.second_opinion(df, ds)
            return

        # a positive constant multiple orders the points the same way
        k = self.scale_of(df, ds)
        if k is not None and k != 1 and (self.neq_goal(df, ds * k, 1e-6)[0] is False or self.neq_goal(df / k, ds, 1e-6)[0] is False):
            st['discharged'] += 1
            st['syntactic'] += 1
            return

        def rev(e, m):
            x, y = T.evaluate(df, e, m), T.evaluate(ds, e, m)
            return (x > 1e-6 and y < -1e-6) or (x < -1e-6 and y > 1e-6)
        hit = self.hunt(rev, 150)
        if hit is not None:
            self.candidate(name, None, hit, 'sat', exact=True)
            return
        g = T.bor(T.band(df < 0, ds > 0), T.band(df > 0, ds < 0))
        v, env = z3enc.solve(self.pc + [g], self.run.check_ms)
        if v == 'unsat':
            st['discharged'] += 1
            return
        self.candidate(name, g, env, v)

    def scale_of(self, df, ds):
        """the constant k > 0 with df = k ds at sampled values, if there is one"""
        ks = []
        for env in list(self.sample_envs())[:6]:
            try:
                x, y = T.evaluate(df, env), T.evaluate(ds, env)
            except (T.NumError, KeyError):
                continue
            if abs(y) > 1e-3:
                ks.append(x / y)
        if not ks or min(ks) <= 0 or max(ks) - min(ks) > 1e-9 * max(ks):
            return None
        k = Fraction(ks[0]).limit_denominator(4096)
        return k if k > 0 and abs(float(k) - ks[0]) < 1e-9 * ks[0] else None

    def neq_goal(self, lx, ly, tol):
        """Boolean whose satisfiability = the two differ (False if normal forms agree)"""
        d = T._add(lx.d, ly.d, -1)
        d = relnoise(d, lx.d, ly.d)
        if not d:
            return False, 'syntactic'
        if max(abs(c) for c in d.values()) < 1e-12:
            lo, hi = T.interval(T.Term(d))
            if lo is not None and hi is not None and max(abs(lo), abs(hi)) < tol * 1e-3:
                return False, 'within tolerance'
        n = congruence(d, self)
        if n is not None and not n:
            return False, 'normal form'
        if n is not None and len(n) <= 200:
            return T.cmp0(n, '<') | T.bnot(T.cmp0(n, '<=')) if len(n) else False, 'poly'
        t = T.Term(d)
        return T.bnot(T.cmp0(d, '==')), 'raw'

    def hunt(self, pred, n=200, base=None):
        rng = random.Random(self.run.seed + 101)
        pinned = set()
        cands = list(self.sample_envs())
        if base is not None:
            e = self.rand_env(rng)
            e.update({k: v for k, v in base.items() if k in self.vars})
            cands.insert(0, e)
        for i in range(n + len(cands)):
            if i < len(cands):
                e = cands[i]
            else:
                b = base if (base is not None and rng.random() < .5) else \
                    (cands[rng.randrange(len(cands))] if cands else None)
                e = self.rand_env(rng, b)
                if b is not None and rng.random() < .5:
                    # perturb reals only, keep integers
                    e = dict(b)
                    for nm, (k, lo, hi, dom) in self.vars.items():
                        if nm not in e:
                            e[nm] = self.rand_env(rng)[nm]
                        elif k == 'R' and rng.random() < .5:
                            e[nm] = min(hi, max(lo, e[nm] + rng.gauss(0, .3)))
            if i >= len(cands) and not self.sat_env(e):
                continue
            try:
                if self.sat_env(e) and pred(e, {}):
                    return e
            except (T.NumError, KeyError):
                continue
        return None

    def candidate(self, name, goal, env, verdict='sat', exact=False):
        """a possible violation: find a concrete point and hand it to replay"""
        self.run.stats['candidates'] += 1
        pts = []
        if exact and env is not None:
            pts.append(env)
        else:
            if goal is None:
                pts = list(self.sample_envs(4))
            else:
                h = self.hunt(lambda e, m: T.evalb(goal, e, m), 150, env)
                if h is not None:
                    pts.append(h)
                if env is not None:
                    rng = random.Random(self.run.seed)
                    e = self.rand_env(rng)
                    e.update({k: v for k, v in env.items() if k in self.vars})
                    pts.append(e)
        self.results.append(dict(name=name, verdict=verdict, points=pts[:4],
                                 goal=T.show(goal) if isinstance(goal, T.Term) else
                                 (repr(goal)[:300] if goal is not None else None)))

    def observe(self, name, value):
        self.obs.append((name, value))

    def reach(self, name):
        self.run.reached.add(name)

    def env(self, base, lo, hi):
        return self.fresh(base, lo, hi)


def close(x, y, tol):
    try:
        x, y = float(x), float(y)
    except (TypeError, ValueError):
        return False
    return abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))


def relnoise(d, a, b):
    if not d:
        return d
    mx = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [Fraction(0)])
    # noise is judged monomial by monomial
    r = {}
    for m, c in d.items():
        ref = max(abs(a.get(m, 0)), abs(b.get(m, 0)))
        if ref and abs(c) <= ref * Fraction(1, 10 ** 11):
            continue
        r[m] = c
    if not r:
        return r
    if mx:
        r2 = {m: c for m, c in r.items() if abs(c) > mx * Fraction(1, 10 ** 14)}
        return r2
    return r


def congruence(d, ctx, depth=0):
    """Fully normalise; merge opaque atoms (log, uf, sqrt..) whose arguments have
    equal normal forms."""
    d = merge_atoms(d, ctx)
    if not d:
        return d
    n = T.deepnorm(d)
    if n is None:
        return None
    if not n:
        return n
    mx = max(abs(c) for c in n.values())
    n = {m: c for m, c in n.items() if abs(c) > mx * Fraction(1, 10 ** 13)}
    return cancel_logs(n, ctx)


def constexp(d):
    """exp of constants as numbers (what code that works on plain arrays computes)"""
    r = {}
    for m, c in d.items():
        k = []
        for a, e in m:
            at = T._ATOMS[a]
            if at.kind == 'exp' and T.is_const(at.arg):
                c = c * Fraction(math.exp(float(T.const_value(at.arg)) * e))
            else:
                k.append((a, e))
        k = tuple(k)
        r[k] = r.get(k, 0) + c
    return r


def cancel_logs(n, ctx):
    """drop groups k1 log a1 + k2 log a2 (+ ...) whose product of powers is a constant
    (collected): found numerically, decided by multiplying out"""
    logs, consts = [], []
    for m in n:
        if m == T.ONE:
            consts.append(m)
        elif len(m) == 1 and m[0][1] == 1 and T._ATOMS[m[0][0]].kind == 'log':
            if T.is_const(T._ATOMS[m[0][0]].arg):
                consts.append(m)
            elif n[m].denominator == 1 and abs(n[m]) <= 4:
                logs.append(m)
    if not 2 <= len(logs) <= 40:
        return n
    rng = random.Random(5)
    envs = ctx.sample_envs()[:2]
    while len(envs) < 2:
        envs.append(ctx.rand_env(rng))
    val = {}
    for m in list(logs):
        try:
            val[m] = [float(n[m]) * math.log(abs(T.evaluate(T._ATOMS[m[0][0]].arg, e))) for e in envs]
        except (T.NumError, KeyError, ValueError):
            logs.remove(m)
    gone, extra = set(), 0.0
    for size in (2, 3, 4):
        if size == 4 and len(logs) > 16:
            break
        again = True
        while again:
            again = False
            for grp in itertools.combinations(logs, size):
                t = [sum(val[m][i] for m in grp) for i in range(len(envs))]
                if abs(t[0] - t[1]) > 1e-7 * (1 + max(abs(val[m][i]) for m in grp for i in range(len(envs)))):
                    continue
                up, dn = {T.ONE: Fraction(1)}, {T.ONE: Fraction(1)}
                for m in grp:
                    b = T._ATOMS[m[0][0]].arg
                    for _ in range(int(abs(n[m]))):
                        if n[m] > 0:
                            up = (T.Term(up) * b).d
                        else:
                            dn = (T.Term(dn) * b).d
                den = dict(T._denoms(up))
                for a, e in T._denoms(dn).items():
                    den[a] = max(den.get(a, 0), e)
                mult = tuple(sorted(den.items()))
                up, dn = [T.expand_pos(T._mul1(mult, Fraction(1), v) if mult else v, 20000) for v in (up, dn)]
                if up is None or dn is None:
                    continue
                up, dn = constexp(up), constexp(dn)
                if not dn or len(up) != len(dn):
                    continue
                lead = max(dn, key=lambda m: (abs(dn[m]), m))
                if not up.get(lead):
                    continue
                k = up[lead] / dn[lead]
                dn = {m: c * k for m, c in dn.items()}
                if k > 0 and not relnoise(T._add(up, dn, -1), up, dn):
                    extra += math.log(k)
                    gone.update(grp)
                    logs = [m for m in logs if m not in gone]
                    again = True
                    break
    if not gone:
        return n
    n = {m: c for m, c in n.items() if m not in gone}
    tot = extra + sum(float(n[m]) * (1.0 if m == T.ONE else math.log(T.const_value(T._ATOMS[m[0][0]].arg))) for m in consts)
    n = {m: c for m, c in n.items() if m not in consts}
    if abs(tot) > 1e-9:
        n[T.ONE] = Fraction(tot)
    return n


def merge_atoms(d, ctx):
    """rename atoms that are provably the same function of the same argument"""
    ids = sorted({a for m in d for a, e in m})
    if len(ids) > 400:
        return d
    groups = {}
    for a in ids:
        at = T._ATOMS[a]
        if at.kind in ('log', 'sqrt', 'abs', 'exp'):
            groups.setdefault(at.kind, []).append(at)
        elif at.kind == 'uf':
            groups.setdefault(('uf', at.name, len(at.arg)), []).append(at)
        elif at.kind in ('max', 'min'):
            groups.setdefault(at.kind, []).append(at)
        elif at.kind == 'sum':
            groups.setdefault('sum', []).append(at)
    envs = ctx.sample_envs()[:2]
    ren = {}
    for k, ats in groups.items():
        if len(ats) < 2 or len(ats) > 120:
            continue
        sig = {}
        for at in ats:
            try:
                s = tuple(round(T.evala(at, e, {}), 9) for e in envs) if envs else ()
            except (T.NumError, KeyError):
                s = ()
            sig.setdefault(s, []).append(at)
        for s, same in sig.items():
            rep = same[0]
            for at in same[1:]:
                if at.kind == 'sum':
                    ok = _eqterm(rep.arg, at.arg, ctx)
                elif at.kind in ('uf', 'max', 'min'):
                    ok = all(_eqterm(x, y, ctx) for x, y in zip(rep.arg, at.arg))
                else:
                    ok = _eqterm(rep.arg, at.arg, ctx)
                if ok:
                    ren[at.id] = rep.id
    if not ren:
        return d
    r = {}
    for m, c in d.items():
        mm = {}
        for a, e in m:
            a = ren.get(a, a)
            mm[a] = mm.get(a, 0) + e
        m2 = tuple(sorted((a, e) for a, e in mm.items() if e))
        for m3, c3 in T._fixed(m2).items():
            v = r.get(m3, 0) + c * c3
            if v:
                r[m3] = v
            else:
                r.pop(m3, None)
    mx = max([abs(c) for c in d.values()])
    return {m: c for m, c in r.items() if abs(c) > mx * Fraction(1, 10 ** 14)}


_EQ = {}


def _eqterm(x, y, ctx):
    lx, ly = T.lift(x), T.lift(y)
    if lx.key == ly.key:
        return True
    k = (lx.key, ly.key)
    h = _EQ.get(k)
    if h is None:
        dd = relnoise(T._add(lx.d, ly.d, -1), lx.d, ly.d)
        if not dd:
            h = True
        else:
            n = congruence(dd, ctx)
            h = n is not None and not n
        _EQ[k] = h
    return h


def flat(x):
    """(shape, list of scalars)"""
    if hasattr(x, '__symarray__'):
        return tuple(x.shape), list(x.a.reshape(-1))
    if isinstance(x, (T.Term, T.Bool)):
        return (), [x]
    if isinstance(x, (list, tuple)):
        parts = [flat(e) for e in x]
        if not parts:
            return (0,), []
        sh = parts[0][0]
        out = []
        for p in parts:
            if p[0] != sh:
                sh = None
            out += p[1]
        return ((len(parts),) + sh) if sh is not None else ('ragged', len(parts)), out
    if hasattr(x, 'shape') and hasattr(x, 'reshape') and getattr(x, 'shape') != ():
        return tuple(x.shape), [v for v in x.reshape(-1).tolist()]
    if hasattr(x, 'item') and not isinstance(x, (int, float)):
        return (), [x.item()]
    return (), [x]
