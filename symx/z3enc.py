"""SMT encoding of terms (z3, nonlinear real + integer arithmetic).

Opaque atoms become fresh reals constrained by sound axioms:
  exp>0, exp monotone / convex tangent, log monotone, sqrt^2=arg, |.|, max, min,
  truncation, sin^2+cos^2=1, ranges of uninterpreted functions, congruence.
The encoding over-approximates, so `unsat` is a proof for every value in the
stated domain; `sat` is a candidate that is replayed on the real code.
"""
import math
import re
import time
from fractions import Fraction

import z3

from . import term as T

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max": 0.0}


class Enc:
    def __init__(self):
        self.vars = {}
        self.memo = {}
        self.axioms = []
        self.atoms = []
        self.inv = {}

    # -- atoms
    def atom(self, a):
        z = self.memo.get(a.id)
        if z is not None:
            return z
        k = a.kind
        if k == 'var':
            z = z3.Int(a.name) if a.isint else z3.Real(a.name)
            self.memo[a.id] = z
            self.vars[a.name] = (z, a)
            if a.domain is not None:
                lo, hi = min(a.domain), max(a.domain)
                if len(a.domain) == hi - lo + 1:
                    self.axioms += [z >= lo, z <= hi]
                else:
                    self.axioms.append(z3.Or([z == v for v in a.domain]))
            else:
                if a.lo > -math.inf:
                    self.axioms.append(z >= num(a.lo))
                if a.hi < math.inf:
                    self.axioms.append(z <= num(a.hi))
            return z
        if k == 'sum':
            z = self.term(a.arg)
            self.memo[a.id] = z
            return z
        if k == 'ind':
            z = z3.If(self.boolean(a.arg), z3.IntVal(1), z3.IntVal(0))
            self.memo[a.id] = z
            return z
        if k == 'abs':
            x = self.term(a.arg)
            z = z3.If(x >= 0, x, -x)
            self.memo[a.id] = z
            return z
        if k in ('max', 'min'):
            x, y = [self.term(t) for t in a.arg]
            z = z3.If(x >= y, x, y) if k == 'max' else z3.If(x <= y, x, y)
            self.memo[a.id] = z
            return z
        if k in ('trunc', 'floor'):
            z = z3.Int("_%s%d" % (k, a.id))
            self.memo[a.id] = z
            x = self.term(a.arg)
            if k == 'floor':
                self.axioms += [z <= x, x < z + 1]
            else:
                self.axioms.append(z3.If(x >= 0, z3.And(z <= x, x < z + 1),
                                         z3.And(z >= x, x > z - 1)))
            return z
        z = z3.Real("_%s%d" % (k if k != 'uf' else a.name, a.id))
        self.memo[a.id] = z
        self.atoms.append(a)
        lo, hi = T.aiv(a)
        if k == 'exp':
            self.axioms.append(z > 0)
            x = self.term(a.arg)
            self.axioms += [z >= 1 + x, z3.Implies(x <= 0, z <= 1)]
            if lo > 0 and lo > 1e-12:
                self.axioms.append(z >= num(lo))
            if hi < 1e12:
                self.axioms.append(z <= num(hi))
        elif k == 'log':
            x = self.term(a.arg)
            self.axioms += [z3.Implies(x > 0, z <= x - 1),
                            z3.Implies(x >= 1, z >= 0)]
            if lo > -1e12:
                self.axioms.append(z >= num(lo))
            if hi < 1e12:
                self.axioms.append(z <= num(hi))
        elif k == 'sqrt':
            x = self.term(a.arg)
            self.axioms += [z >= 0, z3.Implies(x >= 0, z * z == x)]
        elif k == 'uf':
            if a.lo > -math.inf:
                self.axioms.append((z > 0) if (a.lo == 0 and a.name.startswith('pos_')) else (z >= num(a.lo)))
            if a.hi < math.inf:
                self.axioms.append(z <= num(a.hi))
            for t in a.arg:
                self.term(t)
        return z

    def inverse(self, a):
        z = self.inv.get(a.id)
        if z is None:
            x = self.atom(a)
            z = z3.Real("_inv%d" % a.id)
            self.inv[a.id] = z
            self.axioms.append(z3.Implies(x != 0, x * z == 1))
            s = T.asign(a)
            if s in ('+', '0+'):
                self.axioms.append(z > 0)
        return z

    def _finite(self, at):
        """value list of an atom that ranges over a few integers, else None"""
        if at.kind == 'ind':
            return (0, 1)
        if at.kind == 'var' and at.domain is not None and len(at.domain) <= 12:
            return tuple(sorted(at.domain))
        if at.kind == 'sum' and T.is_int(at.arg):
            lo, hi = T.interval(at.arg)
            if hi - lo <= 12:
                return tuple(range(math.ceil(lo), math.floor(hi) + 1))
        return None

    def mono(self, m, c):
        """products with finite integer factors become case splits (keeps the rest linear)"""
        if len(m) == 1 and m[0][1] == 1 or not m:
            return self._mono(m, c)
        fin, rest, size = [], [], 1
        for a, e in m:
            vs = self._finite(T._ATOMS[a])
            if vs is not None and size * len(vs) <= 64:
                fin.append((a, e, vs))
                size *= len(vs)
            else:
                rest.append((a, e))
        if not fin:
            return self._mono(m, c)
        rz = self._mono(tuple(rest), Fraction(1)) if rest else None
        key = ('mono', m)
        z = self.memo.get(key)
        if z is None:
            z = self._cases(fin, 0, Fraction(1), rz, m)
            self.memo[key] = z
        return z if c == 1 else num(c) * z

    def _cases(self, fin, i, acc, rz, m):
        if i == len(fin):
            return num(acc) if rz is None else num(acc) * rz
        a, e, vs = fin[i]
        at = T._ATOMS[a]
        out = None
        if at.kind == 'ind':
            pairs = [(self.boolean(at.arg), 1), (None, 0)]
        else:
            z = self.atom(at)
            pairs = [(z == v, v) for v in vs]
            pairs[-1] = (None, vs[-1])
        for cond, v in reversed(pairs):
            if v == 0:
                leaf = num(0) if e > 0 else self._free(m)
            else:
                leaf = self._cases(fin, i + 1, acc * Fraction(v) ** e, rz, m)
            out = leaf if cond is None else z3.If(cond, leaf, out)
        return out

    def _free(self, m):
        k = ('free', m)
        z = self.memo.get(k)
        if z is None:
            z = z3.Real("_undef%d" % len(self.memo))
            self.memo[k] = z
        return z

    def _mono(self, m, c):
        r = None
        for a, e in m:
            at = T._ATOMS[a]
            z = self.atom(at) if e > 0 else self.inverse(at)
            for _ in range(abs(e)):
                r = z if r is None else r * z
        if r is None:
            return num(c)
        if c == 1:
            return r
        return num(c) * r

    def term(self, t):
        if not isinstance(t, T.Term):
            return num(t)
        ps = [self.mono(m, c) for m, c in t.d.items()]
        if not ps:
            return z3.RealVal(0)
        if len(ps) == 1:
            return ps[0]
        return z3.Sum(ps)

    def boolean(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == 'and':
            return z3.And([self.boolean(x) for x in b.args])
        if b.op == 'or':
            return z3.Or([self.boolean(x) for x in b.args])
        if b.op == 'not':
            return z3.Not(self.boolean(b.args))
        t = clear_denoms(b.args)
        x = self.term(t)
        if b.op == '<':
            return x < 0
        if b.op == '<=':
            return x <= 0
        return x == 0

    def pair_axioms(self):
        out = []
        groups = {}
        for a in self.atoms:
            if a.kind in ('exp', 'log', 'sqrt'):
                groups.setdefault(a.kind, []).append(a)
            elif a.kind == 'uf':
                groups.setdefault(('uf', a.name), []).append(a)
        for k, ats in groups.items():
            if len(ats) > 14:
                ats = ats[:14]
            for i in range(len(ats)):
                for j in range(i + 1, len(ats)):
                    a, b = ats[i], ats[j]
                    za, zb = self.memo[a.id], self.memo[b.id]
                    if k in ('exp', 'log'):
                        xa, xb = self.term(a.arg), self.term(b.arg)
                        out += [(xa <= xb) == (za <= zb), (xa == xb) == (za == zb)]
                    elif k == 'sqrt':
                        xa, xb = self.term(a.arg), self.term(b.arg)
                        out += [(xa <= xb) == (za <= zb)]
                    else:
                        if a.name == 'sin' or len(a.arg) != len(b.arg):
                            continue
                        eqs = [self.term(x) == self.term(y) for x, y in zip(a.arg, b.arg)]
                        out.append(z3.Implies(z3.And(eqs), za == zb))
                        if a.name in MONOTONE and len(a.arg) == 1:
                            x, y = self.term(a.arg[0]), self.term(b.arg[0])
                            out.append((x <= y) == (za <= zb))
        # eigenvalues ascend, singular values descend
        order = {}
        for a in self.atoms:
            m = a.kind == 'uf' and SPECTRUM.match(a.name)
            if m:
                order.setdefault((m.group(1), tuple(t.key for t in a.arg)), []).append((int(m.group(3)), m.group(2), a))
        for v in order.values():
            v.sort(key=lambda q: q[0])
            for (_, kind, a), (_, _, b) in zip(v, v[1:]):
                za, zb = self.memo[a.id], self.memo[b.id]
                out.append(za <= zb if kind == 'eigh' else za >= zb)
        # trig identity
        for a in self.atoms:
            if a.kind == 'uf' and a.name in ('sin', 'cos'):
                other = T._ATOM_TABLE.get(('uf', 'cos' if a.name == 'sin' else 'sin',
                                           tuple(t.key for t in a.arg)))
                if other is not None and a.name == 'sin':
                    zc = self.atom(other)
                    zs = self.memo[a.id]
                    out.append(zs * zs + zc * zc == 1)
        return out


SPECTRUM = re.compile(r'((eigh)[0-9x]+_0|(?:svd[01])[0-9x]+_1)_(\d+)$')
MONOTONE = {'ndtr', 'erfinv', 'erf'}


def num(x):
    if isinstance(x, z3.ExprRef):
        return x
    f = T.rat(x) if not isinstance(x, Fraction) else x
    if f.denominator == 1:
        return z3.RealVal(int(f))
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def clear_denoms(t):
    """multiply a comparison side by positive atoms to remove negative powers"""
    if not isinstance(t, T.Term):
        return t
    den = {}
    for m in t.d:
        for a, e in m:
            if e < 0 and T.asign(T._ATOMS[a]) in ('+', '0+'):
                den[a] = max(den.get(a, 0), -e)
    if not den or sum(den.values()) > 12:
        return t
    return T.Term(T._mul1(tuple(sorted(den.items())), Fraction(1), t.d))


def solve(bools, timeout_ms=8000, extra=(), want_model=True, neq=None):
    """check a conjunction.  returns (verdict, model env or None)"""
    t0 = time.time()
    enc = Enc()
    zs = []
    for b in bools:
        if b is True:
            continue
        if b is False:
            STATS["queries"] += 1
            STATS["unsat"] += 1
            return 'unsat', None
        zs.append(enc.boolean(b))
    if neq is not None:
        zs.append(enc.term(neq[0]) != enc.term(neq[1]))
    pa = enc.pair_axioms()
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*enc.axioms)
    s.add(*pa)
    s.add(*zs)
    r = s.check()
    if r == z3.unknown and timeout_ms >= 1000:
        s2 = z3.Tactic('qfnra-nlsat').solver() if not _has_ints(enc) else None
        if s2 is not None:
            s2.set("timeout", int(timeout_ms))
            try:
                s2.add(*enc.axioms)
                s2.add(*pa)
                s2.add(*zs)
                r2 = s2.check()
                if r2 != z3.unknown:
                    r, s = r2, s2
            except z3.Z3Exception:
                pass
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["max"] = max(STATS["max"], dt)
    name = str(r)
    STATS[name] = STATS.get(name, 0) + 1
    env = None
    if r == z3.sat and want_model:
        m = s.model()
        env = {}
        for nm, (z, a) in enc.vars.items():
            v = m.eval(z, model_completion=True)
            env[nm] = z3val(v)
    return name, env


def _has_ints(enc):
    return any(a.isint for _, a in enc.vars.values())


def z3val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long()) \
            if abs(v.denominator_as_long()) < 10 ** 300 else float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    try:
        return float(str(v))
    except ValueError:
        return 0.0
