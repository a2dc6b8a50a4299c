"""Symbolic real/integer terms.

A Term is a finite sum  c_1*m_1 + ... + c_k*m_k  with rational coefficients and
monomials m_i = prod atom^e (integer e, possibly negative).  Atoms are input
variables, opaque functions (exp, log, sqrt, |.|, max, min, truncation, 0/1
indicators, uninterpreted functions) and multi-term sums used as a factor.
The representation is an algebraic normal form: it only rewrites by identities
of the reals, every identity being re-checked numerically (see selfcheck).  The
verdict on a property is the SMT solver's (z3enc.py).
"""
import math
from fractions import Fraction

TINY = 1e-20          # |c| <= TINY is a numerical guard in the code: read as 0
SAT = 745.0           # exp/expit argument beyond which float64 saturates

_ATOMS = []
_ATOM_TABLE = {}


class Unsupported(Exception):
    """The engine cannot encode this operation."""


class Fork:
    """Hook to the path explorer (set by explore.py)."""
    ctx = None


def rat(x):
    """float/int -> Fraction, preferring the simple rational it was meant as."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported("non-finite constant in exact arithmetic")
    if abs(x) <= TINY:
        return Fraction(0)
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    for lim in (1000, 10 ** 6):
        g = f.limit_denominator(lim)
        if g and abs(g - f) <= abs(f) * Fraction(1, 10 ** 15) * 4:
            return g
    return f


class Atom:
    __slots__ = ("id", "kind", "arg", "name", "lo", "hi", "isint", "domain",
                 "_sign", "_iv", "fn")

    def __init__(self, kind, arg, name=None, lo=-math.inf, hi=math.inf,
                 isint=False, domain=None, fn=None):
        self.kind, self.arg, self.name = kind, arg, name
        self.lo, self.hi, self.isint, self.domain = lo, hi, isint, domain
        self._sign = None
        self._iv = None
        self.fn = fn
        self.id = len(_ATOMS)
        _ATOMS.append(self)

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "uf":
            return "%s(%s)" % (self.name, ", ".join(map(repr, self.arg)))
        if self.kind == "sum":
            return "{%r}" % (self.arg,)
        return "%s(%r)" % (self.kind, self.arg)


def intern_atom(key, *args, **kw):
    a = _ATOM_TABLE.get(key)
    if a is None:
        a = Atom(*args, **kw)
        _ATOM_TABLE[key] = a
    return a


def reset():
    NAMED.clear()
    FACTS.clear()
    _ATOMS.clear()
    _ATOM_TABLE.clear()


# ---------------------------------------------------------------- Term class
class Term:
    __slots__ = ("d", "_key", "_norm")
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, d):
        self.d = d
        self._key = None
        self._norm = None

    @property
    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def __hash__(self):
        return hash(self.key)

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Term):
            return o + 0 if _special(o) else NotImplemented
        return mk(_add(self.d, o.d))
    __radd__ = __add__

    def __neg__(self):
        return mk({m: -c for m, c in self.d.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Term):
            return -o
        return mk(_add(self.d, o.d, -1))

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Term):
            return o
        return mk(_add(o.d, self.d, -1))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Term):
            if o != o:
                return o
            s = sign(self)
            if s == '+':
                return o
            if s == '-':
                return -o
            raise Unsupported("infinite * symbolic")
        return mk(_mul(self.d, o.d))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Term):
            if o != o:
                return o
            return 0
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not isinstance(o, Term):
            if o != o:
                return o
            s = sign(self)
            if s in ('+', '0+'):
                return o
            raise Unsupported("infinite / symbolic")
        return div(o, self)

    def __floordiv__(self, o):
        return floor_(self / o)

    def __rfloordiv__(self, o):
        return floor_(o / self)

    def __mod__(self, o):
        q = floor_(self / o)
        return self - q * o

    def __rmod__(self, o):
        q = floor_(o / self)
        return o - q * self

    def __pow__(self, n):
        return power(self, n)

    def __rpow__(self, b):
        return power(b, self)

    def __abs__(self):
        return abs_(self)

    # -- comparisons
    def __lt__(self, o):
        return cmp_(self, o, '<')

    def __le__(self, o):
        return cmp_(self, o, '<=')

    def __gt__(self, o):
        return cmp_(o, self, '<')

    def __ge__(self, o):
        return cmp_(o, self, '<=')

    def __eq__(self, o):
        return cmp_(self, o, '==')

    def __ne__(self, o):
        return bnot(cmp_(self, o, '=='))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return concretize(trunc_(self))

    def __index__(self):
        return concretize(self)

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __round__(self, n=None):
        raise Unsupported("round of symbolic")

    def __repr__(self):
        return show(self)

    # numpy-scalar-like API
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('int64' if is_int(self) else 'float64')

    def astype(self, dt, *a, **k):
        import numpy
        kind = numpy.dtype(dt).kind
        if kind in 'iu':
            return trunc_(self)
        if kind == 'b':
            return self != 0
        if NAMING is not None and len(self.d) > 0 and numpy.dtype(dt) == numpy.dtype('float64'):
            return named(self)
        return self

    def item(self, *a):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self
    prod = mean = max = min = squeeze = ravel_ = conjugate = conj = sum

    def clip(self, lo=None, hi=None, *a, **k):
        lo = k.get('min', lo)
        hi = k.get('max', hi)
        r = self
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    def any(self, *a, **k):
        return self != 0
    all = any

    def __getitem__(self, k):
        from . import sarray
        return sarray.asarray(self)[k]

    def reshape(self, *shape, **k):
        from . import sarray
        return sarray.asarray(self).reshape(*shape)

    def ravel(self, *a):
        from . import sarray
        return sarray.asarray(self).reshape(-1)
    flatten = ravel

    def dot(self, o):
        return self * o

    def is_integer(self):
        return is_int(self)


ONE = ()
_ZERO = {}


def _special(o):
    return isinstance(o, float) and (o != o or o in (math.inf, -math.inf))


def lift(o):
    """number -> Term; special floats come back as python floats."""
    if isinstance(o, Term):
        return o
    if isinstance(o, Bool):
        return ind(o)
    if isinstance(o, (bool, int, float, Fraction)):
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            return o
        r = rat(o)
        return Term({ONE: r} if r else {})
    if hasattr(o, 'dtype') and getattr(o, 'shape', None) == () and hasattr(o, 'item') \
            and type(o).__module__ == 'numpy':
        if type(o).__name__ == 'ndarray':
            o = o[()]
        if type(o).__name__ in ('longdouble', 'float128'):
            return lift(float(o))
        return lift(o.item())
    return NotImplemented


def const(x):
    r = rat(x)
    return Term({ONE: r} if r else {})


def mk(d):
    """collapse constants to python numbers"""
    if not d:
        return 0
    if len(d) == 1 and ONE in d:
        c = d[ONE]
        if c.denominator == 1:
            return int(c)
        return _Rat(c)
    return Term(d)


def _Rat(c):
    # exact rationals stay exact as long as float -> rat gives them back
    f = float(c)
    if abs(f) > TINY and rat(f) == c:
        return f
    return Term({ONE: c})


def is_const(t):
    if not isinstance(t, Term):
        return True
    return not t.d or (len(t.d) == 1 and ONE in t.d)


def const_value(t):
    if not isinstance(t, Term):
        return rat(t)
    return t.d.get(ONE, Fraction(0))


def _add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    """multiply monomials (sorted tuples of (atom id, exp)); may need fixups."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _fix(m):
    """Reduce sqrt^2, ind^2, abs^2 in a monomial.  Returns Term-dict or None."""
    for a, e in m:
        at = _ATOMS[a]
        k = at.kind
        if k == 'ind' and e > 1:
            return _fixed(tuple((x, 1 if x == a else y) for x, y in m))
        if k == 'sqrt' and (e >= 2 or e <= -2):
            q = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * q
            rest = tuple((x, r if x == a else y) for x, y in m if not (x == a and r == 0))
            base = _pow(at.arg.d, q)
            return _mul(_fixed(rest), base)
        if k == 'abs' and (e >= 2 or e <= -2):
            q = e // 2 if e > 0 else -((-e) // 2)
            r = e - 2 * q
            rest = tuple((x, r if x == a else y) for x, y in m if not (x == a and r == 0))
            base = _pow(at.arg.d, 2 * q)
            return _mul(_fixed(rest), base)
    return None


_NEEDFIX = ('ind', 'sqrt', 'abs')


def _fixed(m):
    for a, e in m:
        if (e > 1 or e < -1) and _ATOMS[a].kind in _NEEDFIX:
            r = _fix(m)
            if r is not None:
                return r
    return {m: Fraction(1)}


def _mul1(m, c, d):
    """(c*m) * d"""
    r = {}
    for m2, c2 in d.items():
        mm = _mmul(m, m2)
        need = False
        for a, e in mm:
            if (e > 1 or e < -1) and _ATOMS[a].kind in _NEEDFIX:
                need = True
                break
        if need:
            for m3, c3 in _fixed(mm).items():
                v = r.get(m3, 0) + c * c2 * c3
                if v:
                    r[m3] = v
                else:
                    r.pop(m3, None)
        else:
            v = r.get(mm, 0) + c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def _pow(d, n):
    """dict ^ integer n"""
    if n == 0:
        return {ONE: Fraction(1)}
    c, m = factor_monomial(d)
    if c == 0:
        if n < 0:
            raise ZeroDivisionError("symbolic division by zero")
        return {}
    mm = tuple((a, e * n) for a, e in m)
    f = _fixed(mm)
    cc = c ** n
    return {k: v * cc for k, v in f.items()}


def _mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        return _mul1(m, c, b)
    if len(b) == 1:
        (m, c), = b.items()
        return _mul1(m, c, a)
    # keep products of indicator-polynomials expanded (they merge well)
    if len(a) * len(b) <= 64 and (_has_ind(a) or _has_ind(b)):
        return expand_mul(a, b)
    c1, m1 = factor_monomial(a)
    c2, m2 = factor_monomial(b)
    if c1 == 0 or c2 == 0:
        return {}
    r = _fixed(_mmul(m1, m2))
    cc = c1 * c2
    return {k: v * cc for k, v in r.items()}


def _has_ind(d):
    for m in d:
        for a, e in m:
            if _ATOMS[a].kind == 'ind':
                return True
    return False


def expand_mul(a, b):
    r = {}
    for m, c in a.items():
        for m3, c3 in _mul1(m, c, b).items():
            v = r.get(m3, 0) + c3
            if v:
                r[m3] = v
            else:
                r.pop(m3, None)
    return r


_FACTOR_CACHE = {}


def factor_monomial(d):
    """Write the sum d as c * monomial, introducing a 'sum' atom if needed."""
    if not d:
        return Fraction(0), ONE
    if len(d) == 1:
        (m, c), = d.items()
        return c, m
    key = frozenset(d.items())
    hit = _ATOM_TABLE.get(('fac', key))
    if hit is not None:
        return hit
    d2 = ratnorm(d)
    if len(d2) <= 1:
        if not d2:
            res = (Fraction(0), ONE)
        else:
            (m, c), = d2.items()
            res = (c, m)
        _ATOM_TABLE[('fac', key)] = res
        return res
    # content: common monomial
    mons = [dict(m) for m in d2]
    common = {}
    atoms = set()
    for m in mons:
        atoms.update(m)
    for a in atoms:
        e = min(m.get(a, 0) for m in mons)
        if e:
            common[a] = e
    if common:
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        body = _mul1(inv, Fraction(1), d2)
        cm = tuple(sorted(common.items()))
    else:
        body, cm = d2, ONE
    if len(body) == 1:
        (m, c), = body.items()
        res = (c, _mmul(m, cm))
        _ATOM_TABLE[('fac', key)] = res
        return res
    lead = max(body, key=_monkey)
    lc = body[lead]
    # one sign convention: leading coefficient positive & monic
    body = {m: c / lc for m, c in body.items()}
    parts = _content(body)
    if parts is not None:
        # body = p * q with p free of one atom of q
        c1, m1 = factor_monomial(parts[0])
        c2, m2 = factor_monomial(parts[1])
        res = (lc * c1 * c2, _mmul(cm, _mmul(m1, m2)))
        _ATOM_TABLE[('fac', key)] = res
        return res
    t = Term(body)
    a = intern_atom(('sum', t.key), 'sum', t)
    res = (lc, _mmul(cm, ((a.id, 1),)))
    _ATOM_TABLE[('fac', key)] = res
    return res


def _content(d, limit=64):
    """d = p * q where d, seen as a polynomial in one atom, has proportional
    coefficients: (p, q), or None."""
    n = len(d)
    if n < 4 or n > limit or _has_ind(d):
        return None
    count = {}
    for m in d:
        for a, e in m:
            count[a] = count.get(a, 0) + 1
    for v in sorted(count):
        if n - count[v] == 1:
            continue
        by = {}
        for m, c in d.items():
            e = 0
            rest = []
            for a, k in m:
                if a == v:
                    e = k
                else:
                    rest.append((a, k))
            by.setdefault(e, {})[tuple(rest)] = c
        if len(by) < 2:
            continue
        it = iter(by.items())
        e0, p = next(it)
        if len(p) < 2 or len(p) * len(by) != n or any(len(o) != len(p) for o in by.values()):
            continue
        p, m0 = _primitive(p)
        q = {_mmul(m0, ((v, e0),) if e0 else ONE): Fraction(1)}
        ok = True
        for e, o in it:
            o, mo = _primitive(o)
            r = None
            for m, c in p.items():
                x = o.get(m)
                if x is None:
                    ok = False
                    break
                if r is None:
                    r = x / c
                elif x != r * c:
                    ok = False
                    break
            if not ok:
                break
            q[_mmul(mo, ((v, e),) if e else ONE)] = r
        if ok:
            return p, q
    return None


def _primitive(d):
    """d divided by the largest monomial dividing every term, and that monomial."""
    common = None
    for m in d:
        t = dict(m)
        if common is None:
            common = t
        else:
            common = {a: min(e, t.get(a, 0)) for a, e in common.items()}
            for a, e in t.items():
                if e < 0 and a not in common:
                    common[a] = e
    common = {a: e for a, e in common.items() if e}
    if not common:
        return d, ONE
    inv = tuple(sorted((a, -e) for a, e in common.items()))
    return {_mmul(m, inv): c for m, c in d.items()}, tuple(sorted(common.items()))


def _monkey(m):
    return (len(m), m)


def _denoms(d):
    den = {}
    for m in d:
        for a, e in m:
            if e < 0 and _ATOMS[a].kind == 'sum':
                den[a] = max(den.get(a, 0), -e)
    return den


def expand_pos(d, limit=600, want=None):
    """Expand 'sum' atoms with positive exponent (bounded)."""
    cur = d
    for _ in range(60):
        todo = None
        for m, c in cur.items():
            for a, e in m:
                if e > 0 and _ATOMS[a].kind == 'sum' and (want is None or a in want):
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return cur
        r = {}
        for m, c in cur.items():
            hit = None
            for a, e in m:
                if e > 0 and _ATOMS[a].kind == 'sum' and (want is None or a in want):
                    hit = (a, e)
                    break
            if hit is None:
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
                continue
            a, e = hit
            rest = tuple((x, (y - 1 if x == a else y)) for x, y in m if not (x == a and y == 1))
            for m3, c3 in _mul1(rest, c, _ATOMS[a].arg.d).items():
                v = r.get(m3, 0) + c3
                if v:
                    r[m3] = v
                else:
                    r.pop(m3, None)
            if len(r) > limit:
                return None
        cur = r
    return None


def ratnorm(d, maxden=4, limit=300):
    """Common denominator over at most `maxden` sum-atoms, numerator expanded."""
    den = _denoms(d)
    if not den or len(den) > maxden or sum(den.values()) > 6:
        # even without denominators, cheap numerator expansion helps
        if not den and len(d) <= 40:
            r = expand_pos(d, limit=120)
            return d if r is None else r
        return d
    mult = tuple(sorted(den.items()))
    num = _mul1(mult, Fraction(1), d)
    num = expand_pos(num, limit)
    if num is None:
        return d
    if not num:
        return {}
    inv = tuple((a, -e) for a, e in mult)
    # cancel: if the numerator is a multiple of one denominator atom's sum
    if len(num) > 1:
        mons = [dict(m) for m in num]
        common = {}
        for a in set().union(*mons):
            e = min(m.get(a, 0) for m in mons)
            if e:
                common[a] = e
        ci = tuple(sorted((a, -e) for a, e in common.items()))
        body = _mul1(ci, Fraction(1), num) if ci else num
        lead = max(body, key=_monkey)
        lc = body[lead]
        body1 = {m: c / lc for m, c in body.items()}
        hit = _ATOM_TABLE.get(('sum', frozenset(body1.items())))
        if hit is not None and hit.id in den:
            m = _mmul(tuple(sorted(common.items())), ((hit.id, 1),))
            return {_mmul(m, inv): lc}
        for a in den:
            q = poly_div(num, _ATOMS[a].arg.d)
            if q is not None:
                num = q
                inv = tuple((x, (e + 1 if x == a else e)) for x, e in inv if not (x == a and e == -1))
    return _mul1(tuple(sorted(inv)), Fraction(1), num)


def poly_div(num, den, limit=40):
    """exact division of polynomials (Laurent, any atoms); None if not exact."""
    if len(den) < 2 or len(num) < len(den):
        return None
    order = lambda m: m
    keyf = lambda m: tuple(sorted(m, reverse=True))
    # use a fixed atom order: lexicographic on dense exponent vectors
    atoms = sorted({a for m in num for a, _ in m} | {a for m in den for a, _ in m}, reverse=True)
    if len(atoms) > 12 or len(num) > 200:
        return None
    pos = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    n = {vec(m): c for m, c in num.items()}
    dd = {vec(m): c for m, c in den.items()}
    dl = max(dd)
    q = {}
    for _ in range(limit):
        if not n:
            return {tuple(sorted((atoms[i], e) for i, e in enumerate(v) if e)): c
                    for v, c in q.items()}
        nl = max(n)
        e = tuple(x - y for x, y in zip(nl, dl))
        c = n[nl] / dd[dl]
        if e in q:
            return None
        q[e] = c
        for v, dc in dd.items():
            k = tuple(x + y for x, y in zip(v, e))
            w = n.get(k, 0) - c * dc
            if w:
                n[k] = w
            else:
                n.pop(k, None)
    return None


def div(a, b):
    b = lift(b)
    a = lift(a)
    if not b.d:
        raise ZeroDivisionError("division by symbolic zero")
    bn = {}
    hasind = _has_ind(b.d)
    if hasind:
        # an ite-valued denominator: keep it opaque but canonical
        pass
    c, m = factor_monomial(b.d)
    if c == 0:
        raise ZeroDivisionError("division by symbolic zero")
    inv = tuple((x, -e) for x, e in m)
    f = _fixed(inv)
    f = {k: v / c for k, v in f.items()}
    return mk(_mul(a.d, f))


# ------------------------------------------------------------------- Bool
class Bool:
    """symbolic truth value: ('cmp', op, Term) | ('and', xs) | ('or', xs) | ('not', x)"""
    __slots__ = ("op", "args", "_key")
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._key = None

    @property
    def key(self):
        if self._key is None:
            if self.op in ('<', '<=', '=='):
                self._key = (self.op, self.args.key)
            elif self.op == 'not':
                self._key = ('not', self.args.key)
            else:
                self._key = (self.op, frozenset(a.key for a in self.args))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__

    def __bool__(self):
        if Fork.ctx is None:
            raise Unsupported("branch on symbolic outside exploration")
        return Fork.ctx.branch(self)

    def __eq__(self, o):
        if isinstance(o, (Bool, bool)):
            return bnot(self ^ o)
        return ind(self) == o

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _t(self):
        return ind(self)

    def __add__(self, o):
        return lift(ind(self)) + (ind(o) if isinstance(o, Bool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return lift(ind(self)) - (ind(o) if isinstance(o, Bool) else o)

    def __rsub__(self, o):
        return o - lift(ind(self))

    def __mul__(self, o):
        if isinstance(o, (Bool, bool)):
            return band(self, o)
        return lift(ind(self)) * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return lift(ind(self)) / o

    def __rtruediv__(self, o):
        return o / lift(ind(self))

    def __neg__(self):
        return -lift(ind(self))

    def __lt__(self, o):
        return lift(ind(self)) < o

    def __le__(self, o):
        return lift(ind(self)) <= o

    def __gt__(self, o):
        return lift(ind(self)) > o

    def __ge__(self, o):
        return lift(ind(self)) >= o

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def astype(self, dt, *a, **k):
        import numpy
        if numpy.dtype(dt).kind == 'b':
            return self
        return ind(self)

    def any(self, *a, **k):
        return self
    all = item = copy = any

    @property
    def shape(self):
        return ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('bool')

    def __repr__(self):
        if self.op in ('<', '<=', '=='):
            return "(%r %s 0)" % (self.args, self.op)
        if self.op == 'not':
            return "!%r" % (self.args,)
        return "(" + (" & " if self.op == 'and' else " | ").join(map(repr, self.args)) + ")"


def cmp_(a, b, op):
    if hasattr(b, '__symarray__') or hasattr(a, '__symarray__'):
        return NotImplemented
    la, lb = lift(a), lift(b)
    if la is NotImplemented or lb is NotImplemented:
        if op == '==':
            return False
        return NotImplemented
    if not isinstance(la, Term) or not isinstance(lb, Term):
        # one side is nan/inf
        x = la if not isinstance(la, Term) else 0.0
        y = lb if not isinstance(lb, Term) else 0.0
        return {'<': x < y, '<=': x <= y, '==': x == y}[op]
    d = _add(la.d, lb.d, -1)
    return cmp0(d, op)


def cmp0(d, op):
    """d op 0, canonicalised"""
    if not d:
        return op != '<'
    if len(d) == 1 and ONE in d:
        c = d[ONE]
        return {'<': c < 0, '<=': c <= 0, '==': False}[op]
    t = Term(d)
    # interval decision
    lo, hi = interval(t)
    if op == '<':
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == '<=':
        if hi <= 0:
            return True
        if lo > 0:
            return False
    else:
        if hi < 0 or lo > 0:
            return False
    s = sign(t)
    if op == '<':
        if s in ('+', '0+'):
            return False
        if s == '-':
            return True
    elif op == '<=':
        if s == '+':
            return False
        if s in ('-', '0-'):
            return True
    elif s in ('+', '-'):
        return False
    # scale: positive rational so that the leading coefficient is +-1
    lead = max(d, key=_monkey)
    lc = d[lead]
    if op == '==':
        k = 1 / lc
    else:
        k = 1 / abs(lc)
    if k != 1:
        t = Term({m: c * k for m, c in d.items()})
    # integer tightening  x < c  ->  x <= c-1
    if op != '==' and is_int(Term(d)) and op == '<':
        dd = dict(d)
        dd[ONE] = dd.get(ONE, Fraction(0)) + 1
        if not dd[ONE]:
            del dd[ONE]
        return cmp0(dd, '<=')
    if op == '==':
        v = single_int_var(t)
        if v is not None:
            a, val = v
            if val.denominator != 1:
                return False
            if a.domain is not None and int(val) not in a.domain:
                return False
            if val < a.lo or val > a.hi:
                return False
    return Bool(op, t)


def single_int_var(t):
    """t == x - c with x an integer variable: returns (atom, c)"""
    if len(t.d) > 2:
        return None
    a = None
    c = Fraction(0)
    k = None
    for m, co in t.d.items():
        if m == ONE:
            c = co
        elif len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == 'var' \
                and _ATOMS[m[0][0]].isint and a is None:
            a, k = _ATOMS[m[0][0]], co
        else:
            return None
    if a is None:
        return None
    return a, -c / k


def bnot(x):
    if isinstance(x, bool):
        return not x
    if not isinstance(x, Bool):
        if isinstance(x, Term):
            return cmp_(x, 0, '==')
        if hasattr(x, '__symarray__'):
            return ~x
        return not bool(x)
    if x.op == 'not':
        return x.args
    if x.op == '<':
        return cmp0({m: -c for m, c in x.args.d.items()}, '<=')
    if x.op == '<=':
        return cmp0({m: -c for m, c in x.args.d.items()}, '<')
    if x.op == 'and':
        return bor(*[bnot(a) for a in x.args])
    if x.op == 'or':
        return band(*[bnot(a) for a in x.args])
    return Bool('not', x)


def _tobool(x):
    if isinstance(x, (bool, Bool)):
        return x
    if isinstance(x, Term):
        return x != 0
    if isinstance(x, (list, tuple)):
        raise Unsupported("bool op on sequence")
    return bool(x)


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        x = _tobool(x)
        if x is True:
            continue
        if x is False:
            return False
        parts = x.args if x.op == 'and' else (x,)
        for p in parts:
            if p.key not in seen:
                seen.add(p.key)
                out.append(p)
    for p in out:
        n = bnot(p)
        if isinstance(n, Bool) and n.key in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Bool('and', tuple(out))


def bor(*xs):
    out = []
    seen = set()
    for x in xs:
        x = _tobool(x)
        if x is False:
            continue
        if x is True:
            return True
        parts = x.args if x.op == 'or' else (x,)
        for p in parts:
            if p.key not in seen:
                seen.add(p.key)
                out.append(p)
    for p in out:
        n = bnot(p)
        if isinstance(n, Bool) and n.key in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Bool('or', tuple(out))


# ------------------------------------------------------------- constructors
def var(name, lo=-math.inf, hi=math.inf, isint=False, domain=None):
    if domain is not None:
        lo, hi = min(domain), max(domain)
    a = intern_atom(('var', name), 'var', None, name=name, lo=lo, hi=hi, isint=isint,
                    domain=None if domain is None else tuple(sorted(set(domain))))
    return Term({((a.id, 1),): Fraction(1)})


def atom_term(a):
    return Term({((a.id, 1),): Fraction(1)})


def ind(b):
    if isinstance(b, bool):
        return int(b)
    if not isinstance(b, Bool):
        return int(bool(b))
    if b.op == 'not':
        return 1 - lift(ind(b.args))
    n = bnot(b)
    if isinstance(n, Bool):
        h = _ATOM_TABLE.get(('ind', n.key))
        if h is not None and _ATOM_TABLE.get(('ind', b.key)) is None:
            return mk(_add({ONE: Fraction(1)}, atom_term(h).d, -1))
    a = intern_atom(('ind', b.key), 'ind', b, lo=0, hi=1, isint=True)
    return atom_term(a)


def ite(c, a, b):
    if isinstance(c, (bool, int)) or not isinstance(c, (Bool, Term)):
        return a if c else b
    if isinstance(c, Term):
        c = c != 0
        if isinstance(c, bool):
            return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
        return bor(band(c, a), band(bnot(c), b))
    la, lb = lift(a), lift(b)
    if not isinstance(la, Term) or not isinstance(lb, Term):
        if la is NotImplemented or lb is NotImplemented:
            raise Unsupported("ite of non-numbers")
        return a if bool(c) else b        # nan/inf branch: fork
    if la.key == lb.key:
        return a
    i = lift(ind(c))
    return i * (la - lb) + lb


def _expand_arg(t):
    t = lift(t)
    if not isinstance(t, Term):
        return t
    hit = _ATOM_TABLE.get(('expand', t.key))
    if hit is not None:
        return hit
    r = expand_pos(t.d, 300)
    if r is None:
        r = t.d
    r = ratnorm(r)
    t2 = Term(r)
    _ATOM_TABLE[('expand', t.key)] = t2
    return t2


def _split_ind(t):
    """If t mentions an indicator, return its Bool (to lift functions over ite)."""
    for m in t.d:
        for a, e in m:
            if _ATOMS[a].kind == 'ind':
                return _ATOMS[a]
    return None


def subst_atom(t, aid, val):
    """replace an (ind) atom by the constant 0/1"""
    r = {}
    for m, c in t.d.items():
        if any(a == aid for a, e in m):
            if val == 0:
                continue
            m = tuple((a, e) for a, e in m if a != aid)
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return mk(r)


def lift_ite(f, t, depth=0):
    """f(ite(c,a,b)) -> ite(c, f(a), f(b)) for indicator-carrying terms."""
    a = _split_ind(t) if isinstance(t, Term) else None
    if a is None or depth > 6:
        return None
    hi = subst_atom(t, a.id, 1)
    lo = subst_atom(t, a.id, 0)
    return ite(a.arg, f(hi), f(lo))


EXP_DEN = [1]      # smallest denominator of the unit exponents (2: half multiples stay comparable)


def exp(t):
    t = lift(t)
    if not isinstance(t, Term):
        return math.exp(t)
    if not t.d:
        return 1
    z = lift_ite(exp, t)
    if z is not None:
        return z
    lo, hi = interval(t)
    if hi <= -SAT:
        return 0
    if lo >= SAT:
        return math.inf
    t = _expand_arg(t)
    if not t.d:
        return 1
    res = {ONE: Fraction(1)}
    for m, c in t.d.items():
        if len(m) == 1 and _ATOMS[m[0][0]].kind == 'log' and m[0][1] == 1 and c.denominator == 1:
            res = _mul(res, _pow(lift(_ATOMS[m[0][0]].arg).d, int(c)))
            continue
        p, q = c.numerator, c.denominator
        if EXP_DEN[0] > 1 and q <= 64:
            f = EXP_DEN[0] // math.gcd(q, EXP_DEN[0])
            p, q = p * f, q * f
        if q <= 64 and abs(p) <= 64:
            base = Term({m: Fraction(1, q)})
            e = p
        else:
            base = Term({m: abs(c)})
            e = 1 if c > 0 else -1
        a = intern_atom(('exp', base.key), 'exp', base, lo=0)
        res = _mul(res, {((a.id, e),): Fraction(1)})
    return mk(res)


def expit(t):
    t0 = lift(t)
    if not isinstance(t0, Term):
        return 1.0 if t0 > 0 else (0.0 if t0 < 0 else t0)
    if is_const(t0):
        v = float(const_value(t0))
        if v >= SAT:
            return 1
        if v <= -SAT:
            return 0
        if v == 0:
            return 0.5
    z = lift_ite(expit, t0)
    if z is not None:
        return z
    lo, hi = interval(t0)
    if lo >= SAT:
        return 1
    if hi <= -SAT:
        return 0
    e = exp(t0)
    return lift(e) / (1 + lift(e))


def _intlog(n):
    r = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def logconst(c):
    if c <= 0:
        if c == 0:
            return -math.inf
        return math.nan
    d = {}
    if c.numerator < 10 ** 9 and c.denominator < 10 ** 9:
        for p, e in _intlog(c.numerator).items():
            d[p] = d.get(p, 0) + e
        for p, e in _intlog(c.denominator).items():
            d[p] = d.get(p, 0) - e
        r = {}
        for p, e in d.items():
            if e:
                base = const(p)
                a = intern_atom(('log', base.key), 'log', base)
                r[((a.id, 1),)] = Fraction(e)
        return mk(r)
    base = Term({ONE: c})
    a = intern_atom(('log', base.key), 'log', base)
    return atom_term(a)


def log(t):
    t = lift(t)
    if not isinstance(t, Term):
        return math.log(t) if t > 0 else math.nan
    if not t.d:
        return -math.inf
    if is_const(t):
        return logconst(const_value(t))
    z = lift_ite(log, t)
    if z is not None:
        return z
    c, m = factor_monomial(t.d)
    if c == 0:
        return -math.inf
    c2, m = _logfactors(m)
    c = c * c2
    # positive factors split off
    rest = []
    out = 0
    negs = 0
    for a, e in m:
        at = _ATOMS[a]
        if at.kind == 'exp':
            out = out + e * at.arg
        elif at.kind == 'sqrt' and possign(at):
            out = out + lift(log(at.arg)) * Fraction(e, 2)
        elif possign(at):
            la = intern_atom(('log', atom_term(at).key), 'log', atom_term(at))
            out = out + e * atom_term(la)
        elif negsign(at):
            nt = -atom_term(at)
            la = intern_atom(('log', nt.key), 'log', nt)
            out = out + e * atom_term(la)
            negs += e
        else:
            rest.append((a, e))
    if negs % 2:
        c = -c
    if rest:
        # common unknown-sign remainder: |c| splits off when the remainder's sign is c's
        if abs(c) != 1:
            out = out + logconst(abs(c))
        r = Term({tuple(rest): Fraction(1 if c > 0 else -1)})
        la = intern_atom(('log', r.key), 'log', r)
        out = out + atom_term(la)
    else:
        out = out + logconst(c)
    return out


def _logfactors(m):
    """Refactor the sums of m that still contain products of sums."""
    out = ONE
    c = Fraction(1)
    for a, e in m:
        at = _ATOMS[a]
        if at.kind == 'sum' and any(k > 0 and _ATOMS[b].kind == 'sum' for n in at.arg.d for b, k in n):
            hit = _ATOM_TABLE.get(('logfac', a))
            if hit is None:
                hit = (Fraction(1), ((a, 1),))
                r = expand_pos(at.arg.d, 2500)
                if r:
                    parts = _content(r, 2500)
                    if parts is not None:
                        c1, m1 = factor_monomial(parts[0])
                        c2, m2 = factor_monomial(parts[1])
                        hit = (c1 * c2, _mmul(m1, m2))
                    else:
                        hit = factor_monomial(r)
                _ATOM_TABLE[('logfac', a)] = hit
            c1, m1 = hit
            c = c * c1 ** e
            out = _mmul(out, tuple((x, y * e) for x, y in m1))
        else:
            out = _mmul(out, ((a, e),))
    return c, out


def possign(at):
    s = asign(at)
    if s == '+':
        return True
    if s in ('-', '0-') or s == '0':
        return False
    if Fork.ctx is not None and at.kind in ('sum', 'var', 'uf', 'max', 'min', 'abs'):
        return Fork.ctx.proves_positive(at)
    return False


def negsign(at):
    s = asign(at)
    if s == '-':
        return True
    if s in ('+', '0+', '0'):
        return False
    if Fork.ctx is not None and at.kind in ('sum', 'var'):
        return Fork.ctx.proves_negative(at)
    return False


def sqrt(t):
    t = lift(t)
    if not isinstance(t, Term):
        return math.sqrt(t) if t >= 0 else math.nan
    if not t.d:
        return 0
    if is_const(t):
        c = const_value(t)
        if c < 0:
            return math.nan
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return mk({ONE: Fraction(n, d)})
        return math.sqrt(float(c))
    z = lift_ite(sqrt, t)
    if z is not None:
        return z
    c, m = factor_monomial(t.d)
    if c == 0:
        return 0
    out = 1
    rest = []
    for a, e in m:
        at = _ATOMS[a]
        q, r = divmod(e, 2)
        if at.kind == 'exp':
            out = out * exp(at.arg * Fraction(e, 2))
            continue
        if q:
            base = atom_term(at)
            if asign(at) not in ('+', '0+') and q % 2:
                base = lift(abs_(base))
            out = out * power(base, q)
        if r:
            rest.append((a, r))
    if not rest:
        return out * sqrt(mk({ONE: c})) if c != 1 else out
    n, d = math.isqrt(abs(c).numerator), math.isqrt(abs(c).denominator)
    if n * n == abs(c).numerator and d * d == abs(c).denominator:
        out = out * Fraction(n, d)
        c = Fraction(1 if c > 0 else -1)
    else:
        if c > 0:
            # fold coefficient into the radicand
            pass
    r = Term({tuple(rest): c})
    e2 = expand_pos(r.d, 60)
    if e2 is not None and e2:
        r = Term(e2)
    a = intern_atom(('sqrt', r.key), 'sqrt', r, lo=0)
    return out * atom_term(a)


def abs_(t):
    t = lift(t)
    if not isinstance(t, Term):
        return abs(t)
    s = sign(t)
    if s in ('+', '0+', '0'):
        return mk(t.d)
    if s in ('-', '0-'):
        return -t
    z = lift_ite(abs_, t)
    if z is not None:
        return z
    lead = max(t.d, key=_monkey)
    if t.d[lead] < 0:
        t = -t
    a = intern_atom(('abs', t.key), 'abs', t, lo=0, isint=is_int(t))
    return atom_term(a)


FACTS = {}        # differences the path condition fixes the sign of


def _dkey(d):
    d = {m: c for m, c in d.items() if m != ()}
    if len(d) < 2:
        return None, 0
    s = abs(min(d.items(), key=lambda p: p[0])[1])
    return frozenset((m, c / s) for m, c in d.items()), d


def note_fact(b):
    # t < 0 (or <=): remember the sign of its non-constant part
    t = b.args
    c0 = t.d.get((), 0)
    if len(t.d) == (1 if c0 == 0 else 2):
        (m, c), = [p for p in t.d.items() if p[0] != ()]
        if len(m) == 1 and m[0][1] == 1:        # a bound of a single atom
            at = _ATOMS[m[0][0]]
            if at.kind in ('abs', 'sqrt', 'uf'):
                v = -float(c0) / float(c)
                if c < 0:
                    at.lo = max(at.lo, v)
                else:
                    at.hi = min(at.hi, v)
                at._sign = at._iv = None
        return
    if len(t.d) > 6 or c0 < 0:
        return
    k, d = _dkey(t.d)
    if k is not None:
        FACTS[k] = '-'
        FACTS[frozenset((m, -c) for m, c in k)] = '+'


def order_sign(t):
    # sign of a difference the path condition orders, directly or through exp
    s = sign(t)
    if s != '?' or len(t.d) > 6:
        return s
    if () not in t.d:
        k, _ = _dkey(t.d)
        if k in FACTS:
            return FACTS[k]
    if len(t.d) == 2:
        (m1, c1), (m2, c2) = t.d.items()
        if c1 == -c2:
            if all(_ATOMS[a].kind == 'exp' for m in (m1, m2) for a, _ in m):
                u = 0
                for m, sg in ((m1, 1), (m2, -1)):
                    for a, e in m:
                        u = u + _ATOMS[a].arg * (e * sg)
                r = order_sign(lift(u))
                return r if c1 > 0 else {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}.get(r, r)
    if len(t.d) > 1:
        f, m = factor_monomial(t.d.copy())
        if f and len(m) > 1:
            return order_sign(Term({m: f}))
    if len(t.d) == 1:
        (m, f), = t.d.items()
        acc = '+' if f > 0 else '-'
        for a, e in m:
            at = _ATOMS[a]
            x = asign(at)
            if x == '?' and at.kind == 'sum' and e == 1:
                x = order_sign(at.arg)
            elif x == '?' or e % 2 == 0:
                x = msign(((a, e),))
            acc = _smul(acc, x)
            if acc == '?':
                return s
        return acc
    return s


def smax(a, b):
    if a is b:
        return a
    c = a >= b if isinstance(a, (Term, Bool)) else (b <= a)
    if isinstance(c, (bool, int)) or not isinstance(c, Bool):
        if isinstance(a, float) and a != a:
            return a
        if isinstance(b, float) and b != b:
            return b
        return a if c else b
    la, lb = lift(a), lift(b)
    if _has_ind(la.d) or _has_ind(lb.d):
        return ite(c, a, b)
    k, m = factor_monomial(_add(la.d, lb.d, -1).copy())
    if not k:
        return a
    sg = order_sign(Term({m: k}))
    if sg in ('+', '0+'):
        return a
    if sg in ('-', '0-'):
        return b
    key = ('max', frozenset([la.key, lb.key]))
    at = _ATOM_TABLE.get(key)
    if at is None:
        i1, i2 = interval(la), interval(lb)
        at = intern_atom(key, 'max', (la, lb), lo=max(i1[0], i2[0]), hi=max(i1[1], i2[1]),
                         isint=is_int(la) and is_int(lb))
    return atom_term(at)


def smin(a, b):
    if a is b:
        return a
    c = a <= b if isinstance(a, (Term, Bool)) else (b >= a)
    if isinstance(c, (bool, int)) or not isinstance(c, Bool):
        if isinstance(a, float) and a != a:
            return a
        if isinstance(b, float) and b != b:
            return b
        return a if c else b
    la, lb = lift(a), lift(b)
    if _has_ind(la.d) or _has_ind(lb.d):
        return ite(c, a, b)
    key = ('min', frozenset([la.key, lb.key]))
    at = _ATOM_TABLE.get(key)
    if at is None:
        i1, i2 = interval(la), interval(lb)
        at = intern_atom(key, 'min', (la, lb), lo=min(i1[0], i2[0]), hi=min(i1[1], i2[1]),
                         isint=is_int(la) and is_int(lb))
    return atom_term(at)


def trunc_(t):
    t = lift(t)
    if not isinstance(t, Term):
        raise Unsupported("int of nan/inf")
    if is_const(t):
        return int(const_value(t))
    if is_int(t):
        return mk(t.d)
    z = lift_ite(trunc_, t)
    if z is not None:
        return z
    lo, hi = interval(t)
    a = intern_atom(('trunc', t.key), 'trunc', t, isint=True,
                    lo=math.trunc(lo) if lo > -math.inf else lo,
                    hi=math.trunc(hi) if hi < math.inf else hi)
    return atom_term(a)


def floor_(t):
    t = lift(t)
    if not isinstance(t, Term):
        return t
    if is_const(t):
        return math.floor(const_value(t))
    if is_int(t):
        return mk(t.d)
    z = lift_ite(floor_, t)
    if z is not None:
        return z
    lo, hi = interval(t)
    a = intern_atom(('floor', t.key), 'floor', t, isint=True,
                    lo=math.floor(lo) if lo > -math.inf else lo,
                    hi=math.floor(hi) if hi < math.inf else hi)
    return atom_term(a)


def sgn(t):
    t = lift(t)
    if not isinstance(t, Term):
        return math.copysign(1.0, t) if t == t else t
    s = sign(t)
    if s == '+':
        return 1
    if s == '-':
        return -1
    if s == '0':
        return 0
    p = cmp_(0, t, '<')
    n = cmp_(t, 0, '<')
    return lift(ind(p)) - lift(ind(n))


def power(b, n):
    if isinstance(n, Term) and is_const(n):
        n = const_value(n)
    lb = lift(b)
    if isinstance(n, Term):
        if isinstance(lb, Term) and is_const(lb):
            return exp(n * logconst(const_value(lb)))
        raise Unsupported("symbolic exponent")
    if not isinstance(lb, Term):
        return lb ** n
    f = rat(n)
    if f == 0:
        return 1
    if f.denominator == 1:
        if abs(f) > 64:
            raise Unsupported("large power")
        f = int(f)
        if f < 0 and not lb.d:
            return math.inf
        if f > 0 and len(lb.d) > 1 and _has_ind(lb.d):
            r = lb
            for _ in range(f - 1):
                r = lift(r * lb)
            return mk(r.d)
        if f == 1:
            return mk(lb.d)
        return mk(_pow(lb.d, f))
    if f == Fraction(1, 2):
        return sqrt(lb)
    if f.denominator == 2:
        s = sqrt(lb)
        return power(s, f.numerator)
    raise Unsupported("fractional power")


_UF = {}


def register_uf(name, fn, lo=-math.inf, hi=math.inf):
    """numeric interpretation + range of an uninterpreted function"""
    _UF[name] = (fn, lo, hi)


def uf(name, *args, lo=None, hi=None, fn=None):
    ts = []
    for a in args:
        t = lift(a)
        if t is NotImplemented or not isinstance(t, Term):
            raise Unsupported("uf arg")
        ts.append(_expand_arg(t))
    f, l0, h0 = _UF.get(name, (fn, -math.inf, math.inf))
    for i, t in enumerate(ts):
        a = _split_ind(t)
        if a is not None:
            x1 = list(ts)
            x1[i] = subst_atom(t, a.id, 1)
            x0 = list(ts)
            x0[i] = subst_atom(t, a.id, 0)
            return ite(a.arg, uf(name, *x1, lo=lo, hi=hi, fn=fn), uf(name, *x0, lo=lo, hi=hi, fn=fn))
    key = ('uf', name, tuple(t.key for t in ts))
    a = intern_atom(key, 'uf', tuple(ts), name=name, lo=l0 if lo is None else lo,
                    hi=h0 if hi is None else hi, fn=f or fn)
    return atom_term(a)


NAMING = None     # ranges of the values given a name of their own on conversion to float64
NAMED = {}


def named(t):
    """a large intermediate result as an opaque atom (its definition is kept in NAMED)"""
    if is_const(t) or len(show(t, 60)) < 120 or any(a.kind == 'uf' and a.name in NAMED for m in t.d for a in (_ATOMS[m[0][0]],) if len(t.d) == 1 and len(m) == 1):
        return t
    for nm, d in NAMED.items():
        if d.key == t.key:
            return uf(nm, *[atom_term(v) for v in collect_vars(t).values()])
    vs = collect_vars(t)
    names = list(vs)
    nm = 'named%d' % len(NAMED)
    lo, hi = NAMING[len(NAMED)] if len(NAMED) < len(NAMING) else (-math.inf, math.inf)
    NAMED[nm] = t
    return uf(nm, *[atom_term(v) for v in vs.values()], lo=lo, hi=hi, fn=lambda *a: evaluate(t, dict(zip(names, a))))


def definition(t):
    if isinstance(t, Term) and len(t.d) == 1:
        (m, c), = t.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == 'uf':
            return NAMED.get(_ATOMS[m[0][0]].name, t)
    return t


def trig(name, t):
    t = lift(t)
    if not isinstance(t, Term):
        return math.nan
    if is_const(t):
        r = getattr(math, name)(float(const_value(t)))
        return 0.0 if abs(r) < 1e-15 else r
    t = _expand_arg(t)
    # parity
    lead = max(t.d, key=_monkey)
    neg = t.d[lead] < 0
    if neg:
        t = -t
    # cos(arccos x) = x, sin(arccos x) = sqrt(1-x^2)
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = _ATOMS[m[0][0]]
            if at.kind == 'uf' and at.name == 'arccos':
                x = at.arg[0]
                if name == 'cos':
                    return mk(x.d)
                r = sqrt(1 - x * x)
                return -lift(r) if neg else r
    # 2*pi - u, pi - u
    c0 = t.d.get(ONE)
    if c0 is not None:
        for k in (1, 2, -1, -2):
            if abs(float(c0) - k * math.pi) < 1e-12:
                rest = Term({m: c for m, c in t.d.items() if m != ONE})
                r = trig(name, rest)
                if k % 2:
                    r = -lift(r) if isinstance(r, Term) else -r
                if name == 'sin' and neg:
                    r = -lift(r) if isinstance(r, Term) else -r
                return r
    r = uf(name, t, lo=-1, hi=1, fn=getattr(math, name))
    return -r if (neg and name == 'sin') else r


def arccos(t):
    t = lift(t)
    if not isinstance(t, Term):
        return math.nan
    if is_const(t):
        return math.acos(float(const_value(t)))
    return uf('arccos', t, lo=0, hi=math.pi, fn=lambda x: math.acos(max(-1.0, min(1.0, x))))


# -------------------------------------------------------------- properties
def is_int(t):
    if not isinstance(t, Term):
        if isinstance(t, (bool, int)):
            return True
        try:
            return float(t).is_integer()
        except Exception:
            return False
    for m, c in t.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0:
                return False
            at = _ATOMS[a]
            if at.kind == 'sum':
                if not is_int(at.arg):
                    return False
            elif not at.isint:
                return False
    return True


def aint(at):
    return at.isint or (at.kind == 'sum' and is_int(at.arg))


def _smul(a, b):
    if a == '0' or b == '0':
        return '0'
    if a == '?' or b == '?':
        return '?'
    neg = ('-' in a) != ('-' in b)
    z = '0' in a or '0' in b
    return ('0' if z else '') + ('-' if neg else '+')


def asign(at):
    if at._sign is not None:
        return at._sign
    k = at.kind
    if k == 'exp':
        s = '+'
    elif at.lo > 0:
        s = '+'
    elif at.hi < 0:
        s = '-'
    elif k == 'sum':
        s = sign(at.arg)
    elif k == 'sqrt':
        s = '+' if sign(at.arg) == '+' else '0+'
    elif k in ('abs', 'ind'):
        s = '+' if (k == 'abs' and sign(at.arg) in '+-') else '0+'
    elif k == 'max':
        ss = [sign(x) for x in at.arg]
        s = '+' if '+' in ss else ('0+' if '0+' in ss else '?')
    elif k == 'min':
        ss = [sign(x) for x in at.arg]
        s = '+' if all(x == '+' for x in ss) else ('0+' if all(x in ('+', '0+') for x in ss) else '?')
    elif at.lo >= 0:
        s = '0+'
    elif at.hi <= 0:
        s = '0-'
    else:
        s = '?'
    at._sign = s
    return s


def msign(m):
    s = '+'
    for a, e in m:
        x = asign(_ATOMS[a])
        if e % 2 == 0:
            x = '+' if x in ('+', '-') else '0+'
        if e < 0 and '0' in x:
            x = x.replace('0', '')      # inverse exists => nonzero
        s = _smul(s, x)
        if s == '?':
            return s
    return s


def sign(t):
    if not isinstance(t, Term):
        return '+' if t > 0 else ('-' if t < 0 else ('0' if t == 0 else '?'))
    if not t.d:
        return '0'
    acc = None
    for m, c in t.d.items():
        s = _smul(msign(m), '+' if c > 0 else '-')
        if s == '?':
            acc = '?'
            break
        if acc is None:
            acc = s
        elif ('-' in acc) != ('-' in s):
            acc = '?'
            break
        else:
            acc = acc if '0' not in acc else s if '0' not in s else acc
    if acc == '?':
        lo, hi = interval(t)
        if lo > 0:
            return '+'
        if hi < 0:
            return '-'
        if lo >= 0:
            return '0+'
        if hi <= 0:
            return '0-'
    return acc


def _imul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return min(ps), max(ps)


def _ipow(iv, e):
    lo, hi = iv
    if e < 0:
        if lo > 0:
            r = (0.0 if hi == math.inf else 1 / hi, 1 / lo if lo > 1e-300 else math.inf)
        elif hi < 0:
            r = (1 / hi if hi < -1e-300 else -math.inf, 0.0 if lo == -math.inf else 1 / lo)
        elif lo >= 0:
            r = (0.0 if hi == math.inf or hi == 0 else 1 / hi, math.inf)
        else:
            return (0.0, math.inf) if e % 2 == 0 else (-math.inf, math.inf)
        return _ipow(r, -e)
    try:
        if e == 1:
            return lo, hi
        if e % 2 == 0:
            if lo >= 0:
                return lo ** e, hi ** e
            if hi <= 0:
                return hi ** e, lo ** e
            return 0.0, max(lo ** e, hi ** e)
        return lo ** e, hi ** e
    except OverflowError:
        return (-math.inf, math.inf) if e % 2 else (0.0, math.inf)


def aiv(at):
    if at._iv is not None:
        return at._iv
    k = at.kind
    lo, hi = at.lo, at.hi
    try:
        if k == 'sum':
            lo, hi = interval(at.arg)
        elif k == 'exp':
            a, b = interval(at.arg)
            lo = 0.0 if a < -700 else math.exp(a) * (1 - 1e-12)
            hi = math.inf if b > 700 else math.exp(b) * (1 + 1e-12)
        elif k == 'log':
            a, b = interval(at.arg)
            lo = -math.inf if a <= 0 else math.log(a) - 1e-12
            hi = math.inf if b == math.inf else (math.log(b) + 1e-12 if b > 0 else math.inf)
        elif k == 'sqrt':
            a, b = interval(at.arg)
            lo = math.sqrt(a) * (1 - 1e-12) if a > 0 else 0.0
            hi = math.sqrt(b) * (1 + 1e-12) if 0 <= b < math.inf else math.inf
        elif k == 'abs':
            a, b = interval(at.arg)
            lo = max(0.0, a, -b)
            hi = max(abs(a), abs(b))
    except OverflowError:
        pass
    lo, hi = max(lo, at.lo), min(hi, at.hi)
    at._iv = (lo, hi)
    return at._iv


def interval(t):
    """sound float interval (outward slack)"""
    if not isinstance(t, Term):
        return float(t), float(t)
    lo = hi = 0.0
    mag = 0.0
    for m, c in t.d.items():
        iv = (1.0, 1.0)
        for a, e in m:
            iv = _imul(iv, _ipow(aiv(_ATOMS[a]), e))
        try:
            cf = float(c)
        except OverflowError:
            return -math.inf, math.inf
        x = _imul(iv, (cf, cf))
        lo += x[0]
        hi += x[1]
        for v in x:
            if abs(v) != math.inf:
                mag = max(mag, abs(v))
    if lo != lo:
        lo = -math.inf
    if hi != hi:
        hi = math.inf
    eps = mag * 1e-13
    if len(t.d) > 1 and any(e != 0 for m in t.d for a, e in m):
        ints = all(float(c).is_integer() for c in t.d.values()) and is_int(t) and mag < 2 ** 50
        if not ints and eps:
            # exact for dyadic cases that matter (bounds touching 0): keep 0 exact
            if lo != 0:
                lo -= eps
            if hi != 0:
                hi += eps
    return lo, hi


# ---------------------------------------------------------------- numerics
class NumError(Exception):
    pass


def evaluate(t, env, memo=None):
    """float value of a term at env: {var name: number}"""
    if memo is None:
        memo = {}
    if isinstance(t, Bool):
        return evalb(t, env, memo)
    if not isinstance(t, Term):
        return float(t)
    s = 0.0
    for m, c in t.d.items():
        v = float(c)
        for a, e in m:
            x = evala(_ATOMS[a], env, memo)
            try:
                v *= x ** e
            except ZeroDivisionError:
                raise NumError("division by zero")
            except OverflowError:
                raise NumError("overflow")
        s += v
    return s


def evala(at, env, memo):
    v = memo.get(at.id)
    if v is not None:
        return v
    k = at.kind
    try:
        if k == 'var':
            v = env[at.name]
            v = float(v)
        elif k == 'sum':
            v = evaluate(at.arg, env, memo)
        elif k == 'exp':
            v = math.exp(evaluate(at.arg, env, memo))
        elif k == 'log':
            x = evaluate(at.arg, env, memo)
            if x <= 0:
                raise NumError("log of non-positive")
            v = math.log(x)
        elif k == 'sqrt':
            x = evaluate(at.arg, env, memo)
            if x < 0:
                if x > -1e-12:
                    x = 0.0
                else:
                    raise NumError("sqrt of negative")
            v = math.sqrt(x)
        elif k == 'abs':
            v = abs(evaluate(at.arg, env, memo))
        elif k == 'max':
            v = max(evaluate(x, env, memo) for x in at.arg)
        elif k == 'min':
            v = min(evaluate(x, env, memo) for x in at.arg)
        elif k == 'trunc':
            v = float(math.trunc(evaluate(at.arg, env, memo)))
        elif k == 'floor':
            v = float(math.floor(evaluate(at.arg, env, memo)))
        elif k == 'ind':
            v = 1.0 if evalb(at.arg, env, memo) else 0.0
        elif k == 'uf':
            if at.fn is None:
                raise NumError("no interpretation for " + str(at.name))
            v = float(at.fn(*[evaluate(x, env, memo) for x in at.arg]))
        else:
            raise NumError(k)
    except (ValueError, OverflowError) as e:
        raise NumError(str(e))
    memo[at.id] = v
    return v


def evalb(b, env, memo=None):
    if memo is None:
        memo = {}
    if isinstance(b, bool) or not isinstance(b, Bool):
        return bool(b)
    if b.op == 'not':
        return not evalb(b.args, env, memo)
    if b.op == 'and':
        return all(evalb(x, env, memo) for x in b.args)
    if b.op == 'or':
        return any(evalb(x, env, memo) for x in b.args)
    v = evaluate(b.args, env, memo)
    if b.op == '<':
        return v < 0
    if b.op == '<=':
        return v <= 0
    if is_int(b.args):
        return round(v) == 0
    return abs(v) < 1e-11


def collect_vars(*ts):
    seen = set()
    out = {}

    def go_t(t):
        if isinstance(t, Bool):
            return go_b(t)
        if not isinstance(t, Term):
            return
        for m in t.d:
            for a, e in m:
                go_a(_ATOMS[a])

    def go_b(b):
        if not isinstance(b, Bool):
            return
        if b.op in ('and', 'or'):
            for x in b.args:
                go_b(x)
        elif b.op == 'not':
            go_b(b.args)
        else:
            go_t(b.args)

    def go_a(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind == 'var':
            out[a.name] = a
        elif a.kind in ('max', 'min', 'uf'):
            for x in a.arg:
                go_t(x)
        elif a.kind == 'ind':
            go_b(a.arg)
        elif a.arg is not None:
            go_t(a.arg)
    for t in ts:
        go_t(t)
    return out


def deepnorm(d, limit=4000):
    """Numerator of d over a common denominator, fully expanded; None if too big."""
    cur = d
    for _ in range(12):
        den = _denoms(cur)
        if den:
            mult = tuple(sorted(den.items()))
            cur = _mul1(mult, Fraction(1), cur)
            if len(cur) > limit:
                return None
        nxt = expand_pos(cur, limit)
        if nxt is None:
            return None
        if not _denoms(nxt):
            return nxt
        cur = nxt
    return None


def drop_noise(d, scale=None):
    """drop monomials whose coefficient is float noise"""
    if not d:
        return d
    mx = scale or max(abs(c) for c in d.values())
    thr = mx * Fraction(1, 10 ** 12)
    return {m: c for m, c in d.items() if abs(c) > thr}


def concretize(t):
    if isinstance(t, Bool):
        return bool(t)
    if not isinstance(t, Term):
        return t
    if is_const(t):
        c = const_value(t)
        return int(c) if c.denominator == 1 else float(c)
    if Fork.ctx is None:
        raise Unsupported("concretize outside exploration")
    return Fork.ctx.concretize(t)


def show(t, limit=12):
    if not isinstance(t, Term):
        return repr(t)
    parts = []
    for i, (m, c) in enumerate(sorted(t.d.items(), key=lambda x: _monkey(x[0]))):
        if i >= limit:
            parts.append('...')
            break
        f = '*'.join((repr(_ATOMS[a]) if e == 1 else "%r^%d" % (_ATOMS[a], e)) for a, e in m)
        if not f:
            parts.append(str(c))
        elif c == 1:
            parts.append(f)
        else:
            parts.append("%s*%s" % (c, f))
    return ' + '.join(parts) if parts else '0'
