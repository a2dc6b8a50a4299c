"""numpy stand-in whose arrays hold symbolic scalars.

Arrays without symbolic content are handed to the real numpy (exact dtype
semantics); arrays with symbolic content are processed element by element.
"""
import functools
import itertools
import math
import numbers
import sys
import types

import numpy as rnp

from . import term as T
from .term import Term, Bool, Unsupported

F8 = rnp.dtype('float64')
I8 = rnp.dtype('int64')
B1 = rnp.dtype('bool')
newaxis = None


def is_sym(x):
    return isinstance(x, (Term, Bool))


def nprange(dt):
    return rnp.iinfo(dt)


def conv_scalar(v, dt):
    """store v into an element of dtype dt"""
    k = dt.kind
    if isinstance(v, SymArray):
        if v.a.size != 1:
            raise ValueError("setting an array element with a sequence.")
        v = v.a.reshape(-1)[0]
    if isinstance(v, Term):
        if k == 'f' or k == 'O':
            return v
        if k in 'iu':
            v = T.trunc_(v)
            if isinstance(v, Term) and dt.itemsize < 4:
                return _wrap_int(v, dt)
            return v
        if k == 'b':
            return v != 0
        if k == 'c':
            return v
        raise Unsupported("dtype %s" % dt)
    if isinstance(v, Bool):
        if k == 'b':
            return v
        return T.ind(v)
    if k == 'O':
        return v
    # plain numbers follow numpy's own casting
    if k == 'b':
        return bool(v)
    if k == 'f':
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            if dt.itemsize == 4:
                return float(rnp.float32(v))
            return float(v)
        return float(v)
    if k in 'iu':
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            if dt.itemsize == 8 and -2 ** 63 <= v < 2 ** 63 and k == 'i':
                return v
            with rnp.errstate(all='ignore'):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return int(rnp.array([v]).astype(dt)[0])
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return -2 ** 63
            return int(v)
        return int(rnp.asarray(v).astype(dt))
    if k == 'c':
        return complex(v)
    return v


def _wrap_int(v, dt):
    info = rnp.iinfo(dt)
    lo, hi = T.interval(v)
    if lo >= info.min and hi <= info.max:
        return v
    n = int(info.max) - int(info.min) + 1
    return (v - int(info.min)) % n + int(info.min)


def store_kind(v):
    if isinstance(v, Bool) or isinstance(v, (bool, rnp.bool_)):
        return B1
    if isinstance(v, Term):
        return I8 if T.is_int(v) else F8
    if isinstance(v, int):
        return I8
    if isinstance(v, float):
        return F8
    if isinstance(v, rnp.generic):
        return v.dtype
    if isinstance(v, complex):
        return rnp.dtype('complex128')
    return rnp.dtype('O')


def pyval(v):
    """numpy scalar -> python scalar"""
    if isinstance(v, rnp.generic):
        if isinstance(v, rnp.longdouble):
            return float(v)
        return v.item()
    return v


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, rnp.ndarray)) if cls.__name__ == 'ndarray' else type.__instancecheck__(cls, x)

    def __call__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        dt = rnp.dtype(dtype)
        if buffer is None:
            return full(shape, 0, dtype=dt)
        if hasattr(buffer, 'storage'):
            return buffer.storage(shape, dt)
        return SymArray.of(rnp.ndarray(shape, dt, buffer, offset, strides, order))


class ndarray(metaclass=_NdMeta):
    pass


class SymArray:
    __symarray__ = True
    __array_ufunc__ = None
    __array_priority__ = 1e10
    __slots__ = ("a", "dtype", "mask_")
    __hash__ = None

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = rnp.dtype(dtype)

    # ------------------------------------------------------ construction
    @staticmethod
    def of(x):
        """from a real ndarray"""
        dt = x.dtype
        o = rnp.empty(x.shape, dtype=object)
        if x.ndim == 0:
            o[()] = pyval(x[()])
        elif x.size:
            flat = o.reshape(-1)
            src = x.reshape(-1)
            if dt == rnp.longdouble:
                for i in range(src.size):
                    flat[i] = float(src[i])
            else:
                lst = src.tolist()
                for i in range(src.size):
                    flat[i] = lst[i]
            o = flat.reshape(x.shape)
        return SymArray(o, dt)

    def symbolic(self):
        for v in self.a.reshape(-1):
            if isinstance(v, (Term, Bool)):
                return True
        return False

    def real_array(self):
        """concrete contents as a real numpy array"""
        if self.dtype.kind == 'O':
            return self.a.copy()
        out = rnp.empty(self.a.shape, dtype=self.dtype)
        f = out.reshape(-1)
        src = self.a.reshape(-1)
        for i in range(src.size):
            f[i] = src[i]
        return f.reshape(self.a.shape)

    # -------------------------------------------------------- attributes
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = s

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return SymArray(self.a.T, self.dtype)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.a.size * self.dtype.itemsize

    @property
    def flat(self):
        return iter(self.a.reshape(-1))

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return self.a.flags

    @property
    def base(self):
        return self.a.base

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __repr__(self):
        return "SymArray(%r)" % (self.a.tolist(),)

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        if self.a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is "
                         "ambiguous. Use a.any() or a.all()")

    def _one(self):
        if self.a.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.a.reshape(-1)[0]

    def __float__(self):
        v = self._one()
        if is_sym(v):
            raise Unsupported("float() of symbolic array")
        return float(v)

    def __int__(self):
        v = self._one()
        if isinstance(v, Term):
            return int(v)
        return int(v)

    def __index__(self):
        v = self._one()
        if self.a.ndim and not isinstance(v, (int, Term)):
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        if isinstance(v, float):
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return T.concretize(v)

    # ---------------------------------------------------------- indexing
    def __getitem__(self, key):
        if getattr(T.Fork.ctx, 'merge', False):
            r = gather(self, key)
            if r is not None:
                return r
        k = conv_key(key, self.a.shape)
        r = self.a[k]
        if isinstance(r, rnp.ndarray):
            return SymArray(r, self.dtype)
        return scalar_out(r, self.dtype)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ------------------------------------------------------ in-place ops
    def _ip(self, o, f, name, truediv=False):
        r = binop(f, self, o, name)
        ra = r if isinstance(r, SymArray) else asarray(r)
        if ra.dtype.kind == 'f' and self.dtype.kind in 'iub' or \
                (ra.dtype.kind in 'iu' and self.dtype.kind == 'b'):
            raise rnp.core._exceptions._UFuncOutputCastingError(
                getattr(rnp, name, rnp.add), 'same_kind', ra.dtype, self.dtype, 0)
        if ra.shape != self.shape:
            b = rnp.broadcast_shapes(ra.shape, self.shape)
            if b != self.shape:
                raise ValueError("non-broadcastable output operand with shape %s doesn't match "
                                 "the broadcast shape %s" % (self.shape, b))
        assign(self, Ellipsis, ra)
        return self

    def __iadd__(self, o):
        return self._ip(o, _add, 'add')

    def __isub__(self, o):
        return self._ip(o, _sub, 'subtract')

    def __imul__(self, o):
        return self._ip(o, _mul, 'multiply')

    def __itruediv__(self, o):
        return self._ip(o, _div, 'true_divide')

    def __ifloordiv__(self, o):
        return self._ip(o, _fdiv, 'floor_divide')

    def __ipow__(self, o):
        return self._ip(o, _pow, 'power')

    def __iand__(self, o):
        return self._ip(o, _and, 'logical_and')

    def __ior__(self, o):
        return self._ip(o, _or, 'logical_or')

    def __imod__(self, o):
        return self._ip(o, _mod, 'remainder')

    # ----------------------------------------------------------- methods
    def copy(self, order=None):
        return SymArray(self.a.copy(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, *a, **k):
        dt = rnp.dtype(dt)
        if not self.symbolic():
            with rnp.errstate(all='ignore'):
                return SymArray.of(self.real_array().astype(dt))
        return SymArray(omap(lambda v: conv_scalar(v, dt), self.a), dt)

    def tolist(self):
        return self.a.tolist()

    def item(self, *a):
        if a:
            return self.a.item(*a)
        return self.a.reshape(-1)[0] if self.a.size == 1 else self.a.item()

    def fill(self, v):
        assign(self, Ellipsis, v)

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list, SymArray)):
            s = tuple(s[0])
        s = tuple(T.concretize(x) if is_sym(x) else int(x) for x in s)
        return SymArray(self.a.reshape(s, **k), self.dtype)

    def ravel(self, order='C'):
        return SymArray(self.a.ravel(order), self.dtype)

    def flatten(self, order='C'):
        return SymArray(self.a.flatten(order), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype)

    def transpose(self, *s):
        return SymArray(self.a.transpose(*s), self.dtype)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self.dtype)

    def view(self, *a, **k):
        return SymArray(self.a, self.dtype)

    def repeat(self, n, axis=None):
        return SymArray(self.a.repeat(n, axis), self.dtype)

    def take(self, ind, axis=None, **k):
        if axis is None:
            return self.ravel()[ind]
        sl = [slice(None)] * self.ndim
        sl[axis] = ind
        return self[tuple(sl)]

    def nonzero(self):
        return nonzero(self)

    def diagonal(self, *a, **k):
        return SymArray(self.a.diagonal(*a, **k).copy(), self.dtype)

    def trace(self, *a, **k):
        return self.diagonal().sum()

    def conj(self):
        return self
    conjugate = conj

    def round(self, *a, **k):
        return around(self, *a, **k)

    def sort(self, axis=-1, **k):
        assign(self, Ellipsis, sort(self, axis))

    def argsort(self, axis=-1, **k):
        return argsort(self, axis)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side, sorter)

    def dot(self, o, out=None):
        return dot(self, o, out)

    def tobytes(self):
        return self.real_array().tobytes()

    def min(self, *a, **k):
        return amin(self, *a, **k)

    def max(self, *a, **k):
        return amax(self, *a, **k)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max, out=out)


def _meth(name):
    def f(self, *a, **k):
        return globals()[name](self, *a, **k)
    return f


for _n in ('sum', 'mean', 'var', 'std', 'prod', 'any', 'all', 'cumsum', 'cumprod',
           'argmin', 'argmax', 'ptp'):
    setattr(SymArray, _n, _meth(_n))


# ----------------------------------------------------------------- helpers
def omap(f, *arrs):
    """elementwise over object arrays with broadcasting"""
    if len(arrs) == 1:
        a = arrs[0]
        out = rnp.empty(a.shape, dtype=object)
        fo = out.reshape(-1) if a.ndim else None
        if a.ndim == 0:
            out[()] = f(a[()])
            return out
        src = a.reshape(-1)
        for i in range(src.size):
            fo[i] = f(src[i])
        return fo.reshape(a.shape)
    bs = rnp.broadcast_arrays(*arrs)
    shp = bs[0].shape
    out = rnp.empty(shp, dtype=object)
    if shp == ():
        out[()] = f(*[b[()] for b in bs])
        return out
    fl = [b.reshape(-1) for b in bs]
    fo = out.reshape(-1)
    for i in range(fo.size):
        fo[i] = f(*[x[i] for x in fl])
    return fo.reshape(shp)


def scalar_out(v, dt):
    """0-d result -> scalar; concrete numbers become numpy scalars"""
    if is_sym(v):
        return v
    if dt.kind == 'O':
        return v
    try:
        return dt.type(v)
    except (OverflowError, ValueError, TypeError):
        return v


def out_(o, dt, keep=False):
    if o.ndim == 0 and not keep:
        return scalar_out(o[()], rnp.dtype(dt))
    return SymArray(o, dt)


def asobj(x):
    """anything array-like -> (object ndarray, dtype, weak?)"""
    if isinstance(x, SymArray):
        return x.a, x.dtype, False
    if isinstance(x, (Term, Bool)):
        o = rnp.empty((), dtype=object)
        o[()] = x
        return o, store_kind(x), True
    if isinstance(x, rnp.ndarray):
        if x.dtype == object:
            return _from_nested(x.tolist() if x.ndim else x[()])
        s = SymArray.of(x)
        return s.a, s.dtype, False
    if isinstance(x, rnp.generic):
        o = rnp.empty((), dtype=object)
        o[()] = pyval(x)
        return o, x.dtype, False
    if isinstance(x, (bool, int, float, complex)):
        o = rnp.empty((), dtype=object)
        o[()] = x
        return o, store_kind(x), True
    if x is None:
        o = rnp.empty((), dtype=object)
        o[()] = None
        return o, rnp.dtype('O'), False
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__') and hasattr(x, '__len__'):
        return _from_nested(list(x))
    from fractions import Fraction
    if isinstance(x, Fraction):
        return asobj(float(x))
    o = rnp.empty((), dtype=object)
    o[()] = x
    return o, rnp.dtype('O'), False


def _from_nested(x):
    if not isinstance(x, (list, tuple, range)):
        return asobj(x)
    x = list(x)
    parts = [asobj(e) for e in x]
    if not parts:
        return rnp.empty((0,), dtype=object), F8, False
    sh = parts[0][0].shape
    for p in parts:
        if p[0].shape != sh:
            raise ValueError("setting an array element with a sequence. The requested array has an "
                             "inhomogeneous shape after 1 dimensions.")
    dt = functools.reduce(_promote, [p[1] for p in parts])
    out = rnp.empty((len(parts),) + sh, dtype=object)
    for i, p in enumerate(parts):
        out[i] = p[0] if sh else p[0][()]
    if dt.kind != 'O':
        out = omap(lambda v: conv_scalar(v, dt), out)
    return out, dt, False


def _promote(a, b):
    if a.kind == 'O' or b.kind == 'O':
        return rnp.dtype('O')
    return rnp.promote_types(a, b)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray) and (dtype is None or rnp.dtype(dtype) == x.dtype):
        return x
    return array(x, dtype)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False, **k):
    if isinstance(x, (map, filter, types.GeneratorType, zip)):
        o = rnp.empty((), dtype=object)
        o[()] = x
        return SymArray(o, 'O')
    if dtype is not None and rnp.dtype(dtype).kind in 'US':
        return rnp.array(x, dtype)
    o, dt, _ = asobj(x)
    r = SymArray(o.copy(), dt)
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def res_dtype(name, ops):
    """result dtype of a ufunc on these (object array, dtype, weak) triples"""
    cat = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3}
    if any_(d.kind == 'O' for _, d, _ in ops):
        return rnp.dtype('O')
    strong = [d for o, d, w in ops if not w and o.ndim > 0]
    zero = [d for o, d, w in ops if w or o.ndim == 0]
    if strong and zero:
        s = functools.reduce(rnp.promote_types, strong)
        z = functools.reduce(rnp.promote_types, zero)
        if cat.get(z.kind, 4) <= cat.get(s.kind, 4):
            dt = s
            # a python int that does not fit a narrow integer array widens it
            if s.kind in 'iu' and s.itemsize < 8:
                for o, d, w in ops:
                    if w or o.ndim == 0:
                        v = o[()]
                        if isinstance(v, Term):
                            lo, hi = T.interval(v)
                        elif isinstance(v, (int, float)):
                            lo = hi = v
                        else:
                            continue
                        inf = rnp.iinfo(dt)
                        if lo < inf.min or hi > inf.max:
                            dt = rnp.result_type(dt, rnp.min_scalar_type(int(lo)), rnp.min_scalar_type(int(hi)))
        else:
            dt = rnp.result_type(s, z) if z.kind != 'f' or s.kind not in 'iu' or s.itemsize > 2 else \
                rnp.result_type(s, rnp.float16)
    else:
        dt = functools.reduce(rnp.promote_types, [d for _, d, _ in ops])
    if name in ('true_divide', 'exp', 'log', 'sqrt', 'sin', 'cos', 'expit') and dt.kind in 'biu':
        dt = F8
    return dt


def _num(v):
    if isinstance(v, Bool):
        return T.ind(v)
    if isinstance(v, bool):
        return int(v)
    return v


def _add(a, b):
    if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
        return T.bor(a, b)
    return _num(a) + _num(b)


def _sub(a, b):
    return _num(a) - _num(b)


def _mul(a, b):
    if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
        return T.band(a, b)
    a, b = _num(a), _num(b)
    return a * b


def _div(a, b):
    a, b = _num(a), _num(b)
    if not isinstance(b, Term):
        if b == 0:
            if isinstance(a, Term):
                s = T.sign(a)
                neg = math.copysign(1, b) < 0
                if s == '+':
                    return -math.inf if neg else math.inf
                if s == '-':
                    return math.inf if neg else -math.inf
                if bool(a == 0):
                    return math.nan
                return math.inf if bool(a > 0) else -math.inf
            if a != a or a == 0:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1, b)
        if isinstance(a, Term):
            return a / b
        return a / b
    # symbolic divisor: distinguish zero when it is reachable
    s = T.sign(b)
    if s == '0':
        return _div(a, 0)
    if s not in ('+', '-') and T.Fork.ctx is not None:
        z = T.cmp_(b, 0, '==')
        if isinstance(z, Bool):
            if getattr(T.Fork.ctx.run, 'split_zero_div', True) and _nonzero_unproved(b):
                if bool(z):
                    return _div(a, 0.0)
        elif z:
            return _div(a, 0.0)
    return a / b


def _nonzero_unproved(b):
    ctx = T.Fork.ctx
    c, m = T.factor_monomial(T.lift(b).d)
    for a, e in m:
        at = T._ATOMS[a]
        if T.asign(at) in ('+', '-'):
            continue
        if at.kind in ('ind',) or T.is_int(T.atom_term(at)):
            return True
        if at.kind == 'sum' and T._has_ind(at.arg.d):
            return True
        if ctx.proves_positive(at, 250) or ctx.proves_negative(at, 250):
            continue
        # real-valued divisors: the zero set has no interior; treated as outside
        ctx.notes.add('assumes-nonzero-real-divisor')
    return False


def _fdiv(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return T.floor_(T.lift(a) / b)
    if b == 0:
        return 0 if isinstance(a, int) and isinstance(b, int) else math.nan
    return a // b


def _mod(a, b):
    a, b = _num(a), _num(b)
    if b == 0 or (not is_sym(b) and b == 0):
        return 0 if isinstance(b, int) else math.nan
    return a % b


def _pow(a, b):
    a, b = _num(a), _num(b)
    if not is_sym(a) and not is_sym(b):
        if a < 0 and isinstance(b, float) and not b.is_integer():
            return math.nan
        if a == 0 and b < 0:
            return math.inf
    return T.power(a, b) if (is_sym(a) or is_sym(b)) else a ** b


def _and(a, b):
    if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
        return T.band(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise and on symbolic integers")
    return a & b


def _or(a, b):
    if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
        return T.bor(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise or on symbolic integers")
    return a | b


def _xor(a, b):
    if isinstance(a, (bool, Bool)) and isinstance(b, (bool, Bool)):
        return T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b))
    return a ^ b


def _cmp(op):
    def f(a, b):
        if isinstance(a, (bool, Bool)) or isinstance(b, (bool, Bool)):
            a, b = _num(a), _num(b)
        if not is_sym(a) and not is_sym(b):
            return bool({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
                         'eq': a == b, 'ne': a != b}[op]) if op in ('eq', 'ne') or True else None
        if op == 'lt':
            return T.cmp_(a, b, '<')
        if op == 'le':
            return T.cmp_(a, b, '<=')
        if op == 'gt':
            return T.cmp_(b, a, '<')
        if op == 'ge':
            return T.cmp_(b, a, '<=')
        r = T.cmp_(a, b, '==')
        return r if op == 'eq' else T.bnot(r)
    return f


_lt, _le, _gt, _ge, _eq, _ne = [_cmp(x) for x in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')]

_REAL = {'add': rnp.add, 'subtract': rnp.subtract, 'multiply': rnp.multiply,
         'true_divide': rnp.true_divide, 'floor_divide': rnp.floor_divide,
         'remainder': rnp.remainder, 'power': rnp.power,
         'less': rnp.less, 'less_equal': rnp.less_equal, 'greater': rnp.greater,
         'greater_equal': rnp.greater_equal, 'equal': rnp.equal, 'not_equal': rnp.not_equal,
         'logical_and': rnp.bitwise_and, 'logical_or': rnp.bitwise_or,
         'bitwise_xor': rnp.bitwise_xor, 'maximum': rnp.maximum, 'minimum': rnp.minimum,
         'arctan2': rnp.arctan2, 'fmax': rnp.fmax, 'fmin': rnp.fmin}

_CMPN = ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal')


def to_real(x):
    """operand for the real numpy (None if symbolic)"""
    if isinstance(x, SymArray):
        return None if x.symbolic() else x.real_array()
    if is_sym(x):
        return None
    if isinstance(x, (list, tuple)):
        o = asarray(x)
        return None if o.symbolic() else o.real_array()
    return x


def wrap(x):
    if isinstance(x, rnp.ndarray):
        return SymArray.of(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    return x


def binop(f, x, y, name):
    rx, ry = to_real(x), to_real(y)
    if rx is not None and ry is not None:
        with rnp.errstate(all='ignore'):
            return wrap(_REAL[name](rx, ry))
    ox, oy = asobj(x), asobj(y)
    if name in _CMPN:
        dt = B1
    elif name in ('logical_and', 'logical_or', 'bitwise_xor'):
        dt = res_dtype(name, [ox, oy])
    else:
        dt = res_dtype(name, [ox, oy])
    o = omap(f, ox[0], oy[0])
    if dt.kind in 'iu' and dt.itemsize < 4:
        o = omap(lambda v: conv_scalar(v, dt), o)
    return out_(o, dt)


def _dunder(name, f, uname):
    def m(self, o):
        if not isinstance(o, (SymArray, Term, Bool, numbers.Number, rnp.ndarray, rnp.generic, list, tuple)):
            if hasattr(o, '__symarray__') or hasattr(o, '_masked'):
                return NotImplemented
            if uname == 'equal':
                return SymArray.of(rnp.zeros(self.shape, bool))
            if uname == 'not_equal':
                return SymArray.of(rnp.ones(self.shape, bool))
            return NotImplemented
        return binop(f, self, o, uname)

    def r(self, o):
        if not isinstance(o, (SymArray, Term, Bool, numbers.Number, rnp.ndarray, rnp.generic, list, tuple)):
            return NotImplemented
        return binop(f, o, self, uname)
    setattr(SymArray, '__%s__' % name, m)
    if name not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(SymArray, '__r%s__' % name, r)


for _n, _f, _u in (('add', _add, 'add'), ('sub', _sub, 'subtract'), ('mul', _mul, 'multiply'),
                   ('truediv', _div, 'true_divide'), ('floordiv', _fdiv, 'floor_divide'),
                   ('mod', _mod, 'remainder'), ('pow', _pow, 'power'), ('lt', _lt, 'less'),
                   ('le', _le, 'less_equal'), ('gt', _gt, 'greater'), ('ge', _ge, 'greater_equal'),
                   ('eq', _eq, 'equal'), ('ne', _ne, 'not_equal'), ('and', _and, 'logical_and'),
                   ('or', _or, 'logical_or'), ('xor', _xor, 'bitwise_xor')):
    _dunder(_n, _f, _u)


def _wrap_term_dunders():
    """scalar Term/Bool OP SymArray"""
    for cls in (Term, Bool):
        for n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'rpow',
                  'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or', 'rand', 'ror', 'xor', 'rxor',
                  'floordiv', 'mod', 'rfloordiv', 'rmod'):
            nm = '__%s__' % n
            old = cls.__dict__.get(nm)
            if old is None:
                continue
            base = n[1:] if n in ('radd', 'rsub', 'rmul', 'rtruediv', 'rpow', 'rand', 'ror', 'rxor',
                                  'rfloordiv', 'rmod') else n
            refl = base != n

            def new(self, o, old=old, base=base, refl=refl):
                if isinstance(o, (SymArray, rnp.ndarray)):
                    s = asarray(self)
                    if isinstance(o, rnp.ndarray):
                        o = SymArray.of(o)
                    f = getattr(SymArray, '__%s__' % base)
                    r = f(o, s) if refl else f(s, o)
                    return r
                return old(self, o)
            setattr(cls, nm, new)
            if n == 'eq':
                cls.__hash__ = cls.__dict__.get('__hash__') or (lambda self: hash(self.key))


_wrap_term_dunders()


def _neg(self):
    if not self.symbolic():
        return wrap(-self.real_array())
    return SymArray(omap(lambda v: -_num(v), self.a), self.dtype)


def _invert(self):
    if self.dtype.kind != 'b':
        if not self.symbolic():
            return wrap(~self.real_array())
        raise Unsupported("~ on symbolic integers")
    return SymArray(omap(T.bnot, self.a), self.dtype)


SymArray.__neg__ = _neg
SymArray.__pos__ = lambda self: self.copy()
SymArray.__invert__ = _invert
SymArray.__abs__ = lambda self: absolute(self)
SymArray.__matmul__ = lambda self, o: matmul(self, o)
SymArray.__rmatmul__ = lambda self, o: matmul(o, self)


# ---------------------------------------------------------------- indexing
def conv_key(key, shape):
    if isinstance(key, tuple):
        return tuple(_k1(k) for k in key)
    return _k1(key)


def _k1(k):
    if isinstance(k, SymArray):
        if k.dtype.kind == 'b':
            return rnp.array([bool(v) for v in k.a.reshape(-1)], dtype=bool).reshape(k.a.shape)
        if k.dtype.kind in 'iu':
            return rnp.array([T.concretize(v) for v in k.a.reshape(-1)],
                             dtype='int64').reshape(k.a.shape)
        if k.a.size == 0:
            if k.dtype.kind == 'f' and not getattr(k, 'mask_', None):
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return rnp.zeros(k.a.shape, dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(k, Bool):
        return bool(k)
    if isinstance(k, Term):
        if not T.is_int(k):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                             "integer or boolean arrays are valid indices")
        return T.concretize(k)
    if isinstance(k, slice):
        f = lambda v: T.concretize(v) if is_sym(v) else (int(v._one()) if isinstance(v, SymArray) else v)
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        if any_(is_sym(v) or isinstance(v, SymArray) for v in k):
            return _k1(asarray(k))
        return rnp.array(k) if k else rnp.zeros(0, dtype=int)
    return k


def gather(self, key):
    """selection along one axis by symbolic indices of a small finite range, as if-then-else (merging mode)"""
    ks = key if isinstance(key, tuple) else (key,)
    ax = [i for i, k in enumerate(ks) if isinstance(k, SymArray) and k.dtype.kind in 'iu' and k.symbolic()]
    if len(ax) != 1 or any_(not isinstance(k, slice) for i, k in enumerate(ks) if i != ax[0]):
        return None
    ax = ax[0]
    n, idx = self.a.shape[ax], ks[ax]
    for v in idx.a.reshape(-1):
        lo, hi = T.interval(v) if isinstance(v, Term) else (v, v)
        if lo < 0 or hi >= n or n > 8:
            return None
    base = self.a[tuple(slice(None) if i == ax else k for i, k in enumerate(ks))]
    rows = []
    for v in idx.a.reshape(-1):
        pick = rnp.take(base, n - 1, axis=ax)
        for q in range(n - 2, -1, -1):
            c = T.cmp_(v, q, '==')
            pick = omap(lambda a, b: T.ite(c, a, b), rnp.take(base, q, axis=ax), pick)
        rows.append(rnp.asarray(pick, dtype=object))
    out = rnp.stack(rows, axis=ax)
    return SymArray(out.reshape(out.shape[:ax] + idx.a.shape + out.shape[ax + 1:]), self.dtype)


def setitem(self, key, val):
    # boolean mask with symbolic entries and a scalar value: merge with if-then-else
    ctx = T.Fork.ctx
    if isinstance(key, SymArray) and key.dtype.kind == 'b' and key.symbolic() and \
            getattr(ctx, 'merge', False):
        v = asobj(val)
        if v[0].ndim == 0 and key.shape == self.shape[:key.ndim]:
            m = key.a
            if key.ndim < self.ndim:
                m = m.reshape(m.shape + (1,) * (self.ndim - key.ndim))
            x = v[0][()]
            x = conv_scalar(x, self.dtype)
            new = omap(lambda c, old: T.ite(c, x, old), m, self.a)
            self.a[...] = new
            return
    k = conv_key(key, self.shape)
    assign(self, k, val)


def assign(self, k, val):
    if isinstance(val, SymArray) and val.dtype == self.dtype:
        src = val.a
    else:
        o, dt, _ = asobj(val)
        d = self.dtype
        src = omap(lambda v: conv_scalar(v, d), o)
    if src.ndim == 0:
        # object arrays need the scalar itself
        self.a[k] = src[()]
    else:
        if src is self.a or (src.base is not None and src.base is self.a.base):
            src = src.copy()
        tgt = self.a[k]
        if not isinstance(tgt, rnp.ndarray):
            if src.size == 1:
                self.a[k] = src.reshape(-1)[0]
                return
            raise ValueError("setting an array element with a sequence.")
        self.a[k] = src


# ---------------------------------------------------------------- creation
def _dt(dtype, default=F8):
    if dtype is None:
        return default
    return rnp.dtype(dtype)


def _shape(s):
    if isinstance(s, SymArray):
        s = s.a.reshape(-1).tolist()
    if isinstance(s, (tuple, list)):
        return tuple(T.concretize(x) if is_sym(x) else int(x) for x in s)
    return (T.concretize(s) if is_sym(s) else int(s),)


def full(shape, fill_value, dtype=None, order='C', **k):
    fo, fdt, _ = asobj(fill_value)
    dt = _dt(dtype, fdt)
    o = rnp.empty(_shape(shape), dtype=object)
    r = SymArray(o, dt)
    if fo.ndim == 0:
        v = conv_scalar(fo[()], dt)
        flat = o.reshape(-1)
        for i in range(flat.size):
            flat[i] = v
        return r
    vals = omap(lambda v: conv_scalar(v, dt), fo)
    o[...] = vals
    return r


def zeros(shape, dtype=None, order='C', **k):
    return full(shape, 0, _dt(dtype))


def ones(shape, dtype=None, order='C', **k):
    return full(shape, 1, _dt(dtype))


empty = zeros


def _like(x):
    return asarray(x)


def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = _like(a)
    return full(a.shape if shape is None else shape, fill_value, a.dtype if dtype is None else dtype)


def zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    return full_like(a, 0, dtype, shape=shape)


def ones_like(a, dtype=None, order='K', subok=True, shape=None):
    return full_like(a, 1, dtype, shape=shape)


empty_like = zeros_like


def arange(*a, **k):
    a = [T.concretize(x) if is_sym(x) and T.is_int(x) else x for x in a]
    if any_(is_sym(x) for x in a):
        raise Unsupported("arange over reals")
    return SymArray.of(rnp.arange(*[int(x._one()) if isinstance(x, SymArray) else x for x in a], **k))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(T.concretize(num)) if is_sym(num) else int(num)
    if not any_(is_sym(x) or isinstance(x, SymArray) for x in (start, stop)):
        r = rnp.linspace(start, stop, num, endpoint, retstep, dtype, axis)
        return wrap(r)
    if isinstance(start, SymArray) or isinstance(stop, SymArray):
        raise Unsupported("linspace over arrays")
    d = num - 1 if endpoint else num
    step = (T.lift(stop) - start) / d if d > 0 else math.nan
    vals = [start + i * step if i else start for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = stop
    o = rnp.empty((num,), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    r = SymArray(o, F8 if dtype is None else dtype)
    return (r, step) if retstep else r


def eye(N, M=None, k=0, dtype=float, **kw):
    return SymArray.of(rnp.eye(int(N), None if M is None else int(M), k, dtype))


def identity(n, dtype=None):
    return SymArray.of(rnp.identity(int(n), dtype))


def copy(a, *x, **k):
    return array(a)


# ------------------------------------------------------------------ ufuncs
def _unary(name, f, real=None, keepint=False):
    real = real or getattr(rnp, name)

    def u(x, out=None, where=True, dtype=None, casting=None, **k):
        if where is not True:
            xo = asobj(x)
            wo = asobj(where)
            base = out if out is not None else zeros_like(x, dtype=F8)
            val = u(x, dtype=dtype)
            va = asobj(val)[0]
            r = omap(lambda c, n, o: T.ite(c, n, o) if is_sym(c) else (n if c else o), wo[0], va, asobj(base)[0])
            if out is not None:
                o1 = out[0] if isinstance(out, tuple) else out
                assign(o1, Ellipsis, SymArray(r, F8))
                return o1
            return SymArray(r, F8)
        rx = to_real(x)
        if rx is not None:
            with rnp.errstate(all='ignore'):
                rr = real(rx)
                if name in ('sin', 'cos'):      # multiples of pi/2 give rounding noise instead of 0
                    rr = rnp.where(rnp.abs(rr) < 1e-15, 0.0 * rr, rr) + 0.0
                    rr = rr if rnp.ndim(rx) else rnp.float64(rr)
                r = wrap(rr)
            if dtype is not None and isinstance(r, SymArray):
                r = r.astype(dtype)
        else:
            o, dt, w = asobj(x)
            if not keepint and dt.kind in 'iub':
                dt = F8

            def g(v):
                if is_sym(v):
                    return f(_num(v))
                with rnp.errstate(all='ignore'):
                    return pyval(real(v))
            r = out_(omap(g, o), dt)
        if out is not None:
            o1 = out[0] if isinstance(out, tuple) else out
            if not isinstance(r, SymArray):
                r = asarray(r)
            if r.dtype.kind == 'f' and o1.dtype.kind in 'iub':
                raise rnp.core._exceptions._UFuncOutputCastingError(
                    getattr(rnp, name, rnp.exp), 'same_kind', r.dtype, o1.dtype, 0)
            assign(o1, Ellipsis, r)
            return o1
        return r
    u.__name__ = name
    return u


exp = _unary('exp', T.exp)
log = _unary('log', T.log)
log1p = _unary('log1p', lambda v: T.log(1 + T.lift(v)))
expm1 = _unary('expm1', lambda v: T.exp(v) - 1)
log2 = _unary('log2', lambda v: T.log(v) / T.log(2))
log10 = _unary('log10', lambda v: T.log(v) / T.log(10))
exp2 = _unary('exp2', lambda v: T.exp(v * T.log(2)))
sqrt = _unary('sqrt', T.sqrt)
cbrt = _unary('cbrt', lambda v: (_ for _ in ()).throw(Unsupported('cbrt')))
square = _unary('square', lambda v: T.lift(v) * v, keepint=True)
absolute = abs = _unary('absolute', T.abs_, keepint=True)
fabs = _unary('fabs', T.abs_)
negative = _unary('negative', lambda v: -v, keepint=True)
positive = _unary('positive', lambda v: v, keepint=True)
reciprocal = _unary('reciprocal', lambda v: 1 / T.lift(v))
sin = _unary('sin', lambda v: T.trig('sin', v))
cos = _unary('cos', lambda v: T.trig('cos', v))
tan = _unary('tan', lambda v: T.trig('sin', v) / T.trig('cos', v))
arccos = _unary('arccos', T.arccos)
arcsin = _unary('arcsin', lambda v: math.pi / 2 - T.arccos(v))


def _tanh(v):
    e = T.lift(T.exp(2 * T.lift(v)))
    return (e - 1) / (e + 1)


tanh = _unary('tanh', _tanh)
cosh = _unary('cosh', lambda v: (T.lift(T.exp(v)) + T.exp(-T.lift(v))) / 2)
sinh = _unary('sinh', lambda v: (T.lift(T.exp(v)) - T.exp(-T.lift(v))) / 2)
arctan = _unary('arctan', lambda v: T.uf('arctan', v, lo=-1.6, hi=1.6, fn=math.atan))
sign = _unary('sign', T.sgn, keepint=True)
floor = _unary('floor', T.floor_)
ceil = _unary('ceil', lambda v: -T.lift(T.floor_(-T.lift(v))))
trunc = _unary('trunc', T.trunc_)
fix = trunc
rint = _unary('rint', lambda v: (_ for _ in ()).throw(Unsupported('rint')))


def _ubool(name, f):
    real = getattr(rnp, name)

    def u(x, out=None, **k):
        rx = to_real(x)
        if rx is not None:
            return wrap(real(rx))
        o, dt, w = asobj(x)
        return out_(omap(lambda v: f(v) if is_sym(v) else bool(real(v)), o), B1)
    u.__name__ = name
    return u


isnan = _ubool('isnan', lambda v: False)
isinf = _ubool('isinf', lambda v: False)
isfinite = _ubool('isfinite', lambda v: True)
logical_not = _ubool('logical_not', lambda v: T.bnot(v))


def invert(x, **k):
    return ~asarray(x)


bitwise_not = invert


class Ufunc2:
    def __init__(self, name, f, uname=None):
        self.f, self.uname, self.__name__ = f, uname or name, name

    def __call__(self, x, y, out=None, where=True, dtype=None, casting=None, **k):
        if where is not True:
            w = asobj(where)[0]
            full_ = asobj(binop(self._safe, x, y, self.uname))[0]
            base = asobj(out)[0] if out is not None else rnp.zeros(full_.shape, dtype=object)
            r = omap(lambda c, n, o: T.ite(c, n, o) if is_sym(c) else (n if c else o), w, full_, base)
            if out is not None:
                assign(out, Ellipsis, SymArray(r, out.dtype))
                return out
            return SymArray(r, F8)
        r = binop(self.f, x, y, self.uname)
        if dtype is not None:
            r = asarray(r).astype(dtype)
        if out is not None:
            o1 = out[0] if isinstance(out, tuple) else out
            if not isinstance(r, SymArray):
                r = asarray(r)
            if r.dtype.kind == 'f' and o1.dtype.kind in 'iub':
                raise rnp.core._exceptions._UFuncOutputCastingError(
                    _REAL[self.uname], 'same_kind', r.dtype, o1.dtype, 0)
            assign(o1, Ellipsis, r)
            return o1
        return r

    def _safe(self, a, b):
        if self.uname == 'true_divide' and not is_sym(b) and b == 0:
            return math.nan
        return self.f(a, b)

    def outer(self, x, y, **k):
        x, y = asarray(x), asarray(y)
        return binop(self.f, x.reshape(x.shape + (1,) * y.ndim), y, self.uname)

    def reduce(self, x, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        x = asarray(x)
        if self.uname == 'add':
            return sum(x, axis=axis, keepdims=keepdims, where=where)
        if self.uname == 'multiply':
            return prod(x, axis=axis, keepdims=keepdims, where=where)
        if self.uname == 'maximum':
            return amax(x, axis=axis, keepdims=keepdims)
        if self.uname == 'minimum':
            return amin(x, axis=axis, keepdims=keepdims)
        if self.uname == 'logical_and':
            return all(x, axis=axis, keepdims=keepdims)
        if self.uname == 'logical_or':
            return any(x, axis=axis, keepdims=keepdims)
        raise Unsupported("reduce of " + self.uname)

    def accumulate(self, x, axis=0, **k):
        if self.uname == 'add':
            return cumsum(x, axis=axis)
        if self.uname == 'multiply':
            return cumprod(x, axis=axis)
        raise Unsupported("accumulate of " + self.uname)

    def at(self, a, idx, b=None):
        k = conv_key(idx, a.shape)
        if isinstance(k, tuple):
            raise Unsupported("ufunc.at with tuple")
        k = rnp.atleast_1d(k)
        if k.dtype == bool:
            k = rnp.nonzero(k)[0]
        bo = rnp.broadcast_to(asobj(b)[0], k.shape + a.a.shape[1:])
        for i, j in enumerate(k):
            a[int(j)] = binop(self.f, a[int(j)], SymArray(rnp.asarray(bo[i], dtype=object), a.dtype)
                              if isinstance(bo[i], rnp.ndarray) else bo[i], self.uname)


add = Ufunc2('add', _add)
subtract = Ufunc2('subtract', _sub)
multiply = Ufunc2('multiply', _mul)
divide = true_divide = Ufunc2('true_divide', _div)
floor_divide = Ufunc2('floor_divide', _fdiv)
remainder = mod = Ufunc2('remainder', _mod)
power = float_power = Ufunc2('power', _pow)
less = Ufunc2('less', _lt)
less_equal = Ufunc2('less_equal', _le)
greater = Ufunc2('greater', _gt)
greater_equal = Ufunc2('greater_equal', _ge)
equal = Ufunc2('equal', _eq)
not_equal = Ufunc2('not_equal', _ne)


def _tb(v):
    return v if isinstance(v, (bool, Bool)) else (v != 0)


_REAL['logand'] = rnp.logical_and
_REAL['logor'] = rnp.logical_or
_REAL['logxor'] = rnp.logical_xor


class _Log2(Ufunc2):
    def __call__(self, x, y, out=None, **k):
        xs, ys = asarray(x), asarray(y)
        xb = SymArray(omap(_tb, xs.a), B1)
        yb = SymArray(omap(_tb, ys.a), B1)
        r = binop(self.f, xb, yb, self.uname)
        if out is not None:
            assign(out, Ellipsis, r)
            return out
        return r


logical_and = _Log2('logical_and', _and)
logical_or = _Log2('logical_or', _or)
logical_xor = _Log2('bitwise_xor', _xor)
bitwise_and = Ufunc2('logical_and', _and)
bitwise_or = Ufunc2('logical_or', _or)
bitwise_xor = Ufunc2('bitwise_xor', _xor)
maximum = Ufunc2('maximum', lambda a, b: T.smax(_num(a), _num(b)))
minimum = Ufunc2('minimum', lambda a, b: T.smin(_num(a), _num(b)))
fmax = Ufunc2('fmax', lambda a, b: b if a != a else a if b != b else T.smax(_num(a), _num(b)))
fmin = Ufunc2('fmin', lambda a, b: b if a != a else a if b != b else T.smin(_num(a), _num(b)))


def logaddexp(a, b, **k):
    return log(exp(a) + exp(b))


_REAL['logaddexp'] = rnp.logaddexp


def hypot(a, b):
    return sqrt(square(a) + square(b))


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    dt = asarray(a).dtype
    r = a
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    if dt.kind in 'iu' and isinstance(r, SymArray) and not k:
        mn = [asarray(x).dtype.kind for x in (a_min, a_max) if x is not None]
        if all_(m in 'iub' for m in mn):
            r = r.astype(dt)
    if out is not None:
        o1 = out[0] if isinstance(out, tuple) else out
        assign(o1, Ellipsis, r)
        return o1
    return r


all_ = __builtins__['all'] if isinstance(__builtins__, dict) else __builtins__.all
any_ = __builtins__['any'] if isinstance(__builtins__, dict) else __builtins__.any
sum_ = __builtins__['sum'] if isinstance(__builtins__, dict) else __builtins__.sum
max_ = __builtins__['max'] if isinstance(__builtins__, dict) else __builtins__.max
min_ = __builtins__['min'] if isinstance(__builtins__, dict) else __builtins__.min
abs_ = __builtins__['abs'] if isinstance(__builtins__, dict) else __builtins__.abs


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = asarray(x)
    def f(v):
        if is_sym(v):
            return v
        return pyval(rnp.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    r = SymArray(omap(f, x.a), x.dtype)
    if not copy:
        assign(x, Ellipsis, r)
        return x
    return r


# -------------------------------------------------------------- reductions
def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    axis = int(axis)
    if not -nd <= axis < nd:
        raise rnp.AxisError(axis, nd) if hasattr(rnp, 'AxisError') else ValueError("axis out of bounds")
    return (axis % nd,)


def _groups(a, axis, keepdims):
    """yield (list of element lists, output shape)"""
    nd = a.ndim
    ax = _axes(axis, nd)
    keep = [i for i in range(nd) if i not in ax]
    perm = keep + list(ax)
    b = a.transpose(perm)
    osh = tuple(a.shape[i] for i in keep)
    n = 1
    for i in ax:
        n *= a.shape[i]
    m = 1
    for s in osh:
        m *= s
    flat = b.reshape(m, n)
    shp = osh
    if keepdims:
        shp = tuple(1 if i in ax else a.shape[i] for i in range(nd))
    return flat, shp


def _reduce(a, axis, keepdims, f, dt, where=True, out=None):
    a = asarray(a)
    flat, shp = _groups(a.a, axis, keepdims)
    if where is not True:
        w = asarray(where)
        wb = rnp.broadcast_to(w.a, a.shape)
        wf, _ = _groups(wb, axis, keepdims)
    res = rnp.empty(flat.shape[0], dtype=object)
    for i in range(flat.shape[0]):
        if where is not True:
            res[i] = f(list(flat[i]), list(wf[i]))
        else:
            res[i] = f(list(flat[i]), None)
    r = res.reshape(shp)
    if out is not None:
        o1 = out[0] if isinstance(out, tuple) else out
        assign(o1, Ellipsis, SymArray(r, dt))
        return o1
    return out_(r, dt, keep=False)


def _realred(fn, a, kw):
    """use real numpy if nothing is symbolic"""
    ra = to_real(a if isinstance(a, (SymArray, rnp.ndarray, list, tuple)) or is_sym(a) else asarray(a))
    if ra is None:
        return None
    k2 = {}
    for k, v in kw.items():
        if isinstance(v, SymArray) and k != 'out':
            v = to_real(v)
            if v is None:
                return None
        k2[k] = v
    out = k2.pop('out', None)
    with rnp.errstate(all='ignore'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = wrap(fn(ra, **k2))
    if out is not None:
        o1 = out[0] if isinstance(out, tuple) else out
        assign(o1, Ellipsis, r)
        return (o1,)
    return (r,)


def _kw(axis=None, dtype=None, keepdims=False, where=True, out=None, **k):
    d = {}
    if axis is not None:
        d['axis'] = axis
    if dtype is not None:
        d['dtype'] = dtype
    if keepdims:
        d['keepdims'] = True
    if where is not True:
        d['where'] = where
    if out is not None:
        d['out'] = out
    d.update(k)
    return d


def _wsum(vals, w):
    s = 0
    for i, v in enumerate(vals):
        v = _num(v)
        if w is not None:
            c = w[i]
            if is_sym(c):
                v = T.ite(c, v, 0)
            elif not c:
                continue
        s = _num(s) + v
    return s


def _sumdt(a, dtype):
    if dtype is not None:
        return rnp.dtype(dtype)
    d = asarray(a).dtype
    if d.kind == 'b' or (d.kind == 'i' and d.itemsize < 8):
        return I8
    if d.kind == 'u' and d.itemsize < 8:
        return rnp.dtype('uint64')
    return d


def sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, types.GeneratorType):
        return sum_(a)
    r = _realred(rnp.sum, a, _kw(axis, dtype, keepdims, where, out))
    if r is None:
        r = (_reduce(a, axis, keepdims, _wsum, _sumdt(a, dtype), where, out),)
    return r[0] if initial is None else r[0] + initial


def prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    r = _realred(rnp.prod, a, _kw(axis, dtype, keepdims, where, out))
    if r is not None:
        return r[0]

    def f(vals, w):
        p = 1
        for i, v in enumerate(vals):
            v = _num(v)
            if w is not None:
                c = w[i]
                if is_sym(c):
                    v = T.ite(c, v, 1)
                elif not c:
                    continue
            p = _num(p) * v
        return p
    return _reduce(a, axis, keepdims, f, _sumdt(a, dtype), where, out)


product_ = prod


def _cnt(vals, w):
    if w is None:
        return len(vals)
    n = 0
    for c in w:
        n = n + (T.ind(c) if is_sym(c) else int(bool(c)))
    return n


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    r = _realred(rnp.mean, a, _kw(axis, dtype, keepdims, where, out))
    if r is not None:
        return r[0]
    return _reduce(a, axis, keepdims, lambda v, w: _div(_wsum(v, w), _cnt(v, w)), F8, where, out)


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return mean(a, axis, keepdims=keepdims)
    a, w = asarray(a), asarray(weights)
    if w.shape != a.shape and axis is not None:
        sh = [1] * a.ndim
        sh[axis] = w.size
        w = w.reshape(tuple(sh))
    return sum(a * w, axis=axis, keepdims=keepdims) / sum(w + zeros_like(a), axis=axis, keepdims=keepdims)


def _varf(ddof):
    def f(v, w):
        n = _cnt(v, w)
        mu = _div(_wsum(v, w), n)
        if not is_sym(mu) and mu != mu:
            return math.nan
        d = [(_num(x) - mu) for x in v]
        d = [_mul(x, x) for x in d]
        den = n - ddof
        if not is_sym(den) and den <= 0:
            den = 0
        return _div(_wsum(d, w), den)
    return f


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    r = _realred(rnp.var, a, _kw(axis, dtype, keepdims, where, out, ddof=ddof))
    if r is not None:
        return r[0]
    return _reduce(a, axis, keepdims, _varf(ddof), F8, where, out)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    r = _realred(rnp.std, a, _kw(axis, dtype, keepdims, where, out, ddof=ddof))
    if r is not None:
        return r[0]
    f = _varf(ddof)

    def g(v, w):
        x = f(v, w)
        return T.sqrt(x) if is_sym(x) else (math.sqrt(x) if x == x and x >= 0 else math.nan)
    return _reduce(a, axis, keepdims, g, F8, where, out)


def _nanwhere(a):
    a = asarray(a)
    return SymArray(omap(lambda v: True if is_sym(v) else not (isinstance(v, float) and v != v), a.a), B1)


def _nanred(name, fn):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
        r = _realred(getattr(rnp, name), a, _kw(axis, dtype, keepdims, where, out, **k))
        if r is not None:
            return r[0]
        w = _nanwhere(a)
        if where is not True:
            w = w & asarray(where)
        a2 = asarray(a)
        a2 = SymArray(omap(lambda v: 0.0 if (not is_sym(v) and isinstance(v, float) and v != v) else v, a2.a), a2.dtype)
        return fn(a2, axis=axis, out=out, keepdims=keepdims, where=w, **k)
    f.__name__ = name
    return f


nansum = _nanred('nansum', sum)
nanmean = _nanred('nanmean', mean)
nanvar = _nanred('nanvar', var)
nanstd = _nanred('nanstd', std)
nanprod = _nanred('nanprod', prod)


def _ext(name, pick):
    real = getattr(rnp, name)

    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
        kw = _kw(axis, None, keepdims, where, out)
        if initial is not None:
            kw['initial'] = initial
        r = _realred(real, a, kw) if not is_sym(initial) else None
        if r is not None:
            return r[0]
        nanskip = name.startswith('nan')

        def g(v, w):
            cur = initial
            if asarray(a).size == 0 and initial is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            for i, x in enumerate(v):
                if w is not None and not bool(w[i]):
                    continue
                if nanskip and not is_sym(x) and x != x:
                    continue
                if cur is None:
                    cur = x
                else:
                    cur = pick(_num(cur), _num(x))
            return cur
        av = asarray(a)
        if av.dtype.kind in 'iu' and _finite_ints(av):
            av = conc(av)
            return f(av, axis, out, keepdims, initial, where)
        return _reduce(av, axis, keepdims, g, av.dtype, where, out)
    f.__name__ = name
    return f


def _finite_ints(av):
    ctx = T.Fork.ctx
    for v in av.a.reshape(-1):
        if isinstance(v, Term):
            for nm in T.collect_vars(v):
                if ctx is None or nm not in ctx.dom:
                    return False
    return not getattr(ctx, 'merge', False)


def conc(av):
    """concretise every element (forks over finite domains)"""
    av = asarray(av)
    if not av.symbolic():
        return av
    return SymArray(omap(lambda v: T.concretize(v) if is_sym(v) else v, av.a), av.dtype)


amax = max = _ext('amax', T.smax)
amin = min = _ext('amin', T.smin)
nanmax = _ext('nanmax', T.smax)
nanmin = _ext('nanmin', T.smin)


def ptp(a, axis=None, **k):
    return amax(a, axis=axis) - amin(a, axis=axis)


def any(a, axis=None, out=None, keepdims=False, where=True):
    r = _realred(rnp.any, a, _kw(axis, None, keepdims, where, out))
    if r is not None:
        return r[0]
    return _reduce(a, axis, keepdims,
                   lambda v, w: T.bor(*[_tb(x) if w is None else T.band(_tb(x), w[i])
                                        for i, x in enumerate(v)]), B1, where, out)


def all(a, axis=None, out=None, keepdims=False, where=True):
    r = _realred(rnp.all, a, _kw(axis, None, keepdims, where, out))
    if r is not None:
        return r[0]
    return _reduce(a, axis, keepdims,
                   lambda v, w: T.band(*[_tb(x) if w is None else T.bor(_tb(x), T.bnot(w[i]))
                                         for i, x in enumerate(v)]), B1, where, out)


alltrue, sometrue = all, any


def count_nonzero(a, axis=None, keepdims=False):
    r = _realred(rnp.count_nonzero, a, _kw(axis, None, keepdims))
    if r is not None:
        return r[0]
    return _reduce(a, axis, keepdims,
                   lambda v, w: _wsum([T.ind(_tb(x)) if is_sym(_tb(x)) else int(_tb(x)) for x in v], None), I8)


def _argext(name, better):
    real = getattr(rnp, name)

    def f(a, axis=None, out=None, keepdims=False):
        r = _realred(real, a, _kw(axis, None, keepdims))
        if r is not None:
            return r[0]

        def g(v, w):
            best = 0
            for i in range(1, len(v)):
                if bool(better(v[i], v[best])):
                    best = i
            return best
        return _reduce(a, axis, keepdims, g, I8)
    return f


argmax = _argext('argmax', lambda x, y: x > y)
argmin = _argext('argmin', lambda x, y: x < y)


def _cum(name, f, start):
    real = getattr(rnp, name)
    nanv = name.startswith('nan')

    def g(a, axis=None, dtype=None, out=None):
        r = _realred(real, a, _kw(axis, dtype, False, True, out))
        if r is not None:
            return r[0]
        a = asarray(a)
        x = a.a.reshape(-1) if axis is None else rnp.moveaxis(a.a, axis, -1)
        res = rnp.empty(x.shape, dtype=object)
        xf = x.reshape(-1, x.shape[-1])
        rf = res.reshape(-1, x.shape[-1])
        for i in range(xf.shape[0]):
            acc = None
            for j in range(xf.shape[1]):
                v = _num(xf[i, j])
                if nanv and not is_sym(v) and v != v:
                    v = start
                acc = v if acc is None else f(acc, v)
                rf[i, j] = acc
        res = rf.reshape(x.shape)
        if axis is not None:
            res = rnp.moveaxis(res, -1, axis)
        res = SymArray(res, _sumdt(a, dtype))
        if out is not None:
            o1 = out[0] if isinstance(out, tuple) else out
            assign(o1, Ellipsis, res)
            return o1
        return res
    g.__name__ = name
    return g


cumsum = _cum('cumsum', _add, 0)
cumprod = _cum('cumprod', _mul, 1)
nancumsum = _cum('nancumsum', _add, 0)
nancumprod = _cum('nancumprod', _mul, 1)


def diff(a, n=1, axis=-1, **k):
    a = asarray(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def median(a, axis=None, **k):
    r = _realred(rnp.median, a, _kw(axis))
    if r is not None:
        return r[0]
    return percentile(a, 50, axis=axis)


def percentile(a, q, axis=None, skipnan=False, **k):
    r = _realred(rnp.nanpercentile if skipnan else rnp.percentile, a, dict(q=q, axis=axis, **k)) if not is_sym(q) else None
    if r is not None:
        return r[0]
    if k.get('method', 'linear') != 'linear' or k.get('interpolation', 'linear') != 'linear':
        raise Unsupported("percentile method")
    if isinstance(q, (list, tuple, SymArray, rnp.ndarray)):
        return stack([asarray(percentile(a, float(x), axis=axis, skipnan=skipnan)) for x in q])

    def f(v, w):
        v = [_num(x) for x in v]
        ok = [x for x in v if is_sym(x) or x == x]
        if not ok or (len(ok) < len(v) and not skipnan):
            return math.nan
        v = _sorted(ok)
        h = (len(v) - 1) * float(q) / 100.0
        lo = int(math.floor(h))
        hi = min_(lo + 1, len(v) - 1)
        return v[lo] + (v[hi] - v[lo]) * (h - lo)
    return _reduce(a, axis, k.get('keepdims', False), f, F8)


def nanpercentile(a, q, axis=None, **k):
    return percentile(a, q, axis, True, **k)


def quantile(a, q, axis=None, **k):
    if isinstance(q, (list, tuple, SymArray, rnp.ndarray)):
        q = [float(x) * 100 for x in q]
    else:
        q = q * 100
    return percentile(a, q, axis=axis, **k)


nanquantile = quantile


def _cmpsort(x, y):
    if is_sym(x) or is_sym(y):
        if bool(T.cmp_(x, y, '<')):
            return -1
        if bool(T.cmp_(y, x, '<')):
            return 1
        return 0
    return -1 if x < y else (1 if x > y else 0)


def _sorted(v):
    return sorted(v, key=functools.cmp_to_key(_cmpsort))


def sort(a, axis=-1, **k):
    a = asarray(a)
    r = to_real(a)
    if r is not None:
        return wrap(rnp.sort(r, axis=axis))
    if _finite_ints(a) and a.dtype.kind in 'iu':
        return sort(conc(a), axis)
    x = a.a.reshape(-1) if axis is None else rnp.moveaxis(a.a, axis, -1)
    res = rnp.empty(x.shape, dtype=object)
    xf, rf = x.reshape(-1, x.shape[-1]), res.reshape(-1, x.shape[-1])
    for i in range(xf.shape[0]):
        for j, v in enumerate(_sorted(list(xf[i]))):
            rf[i, j] = v
    res = rf.reshape(x.shape)
    if axis is not None:
        res = rnp.moveaxis(res, -1, axis)
    return SymArray(res, a.dtype)


def argsort(a, axis=-1, **k):
    a = asarray(a)
    r = to_real(a)
    if r is not None:
        return wrap(rnp.argsort(r, axis=axis, **k))
    x = a.a.reshape(-1) if axis is None else rnp.moveaxis(a.a, axis, -1)
    res = rnp.empty(x.shape, dtype=object)
    xf, rf = x.reshape(-1, x.shape[-1]), res.reshape(-1, x.shape[-1])
    for i in range(xf.shape[0]):
        idx = sorted(range(xf.shape[1]), key=functools.cmp_to_key(lambda p, q: _cmpsort(xf[i, p], xf[i, q])))
        for j, v in enumerate(idx):
            rf[i, j] = v
    res = rf.reshape(x.shape)
    if axis is not None:
        res = rnp.moveaxis(res, -1, axis)
    return SymArray(res, I8)


def searchsorted(a, v, side='left', sorter=None):
    ra, rv = to_real(a), to_real(v)
    if ra is not None and rv is not None:
        return wrap(rnp.searchsorted(ra, rv, side))
    a = asarray(a)
    lst = list(a.a)

    def f(x):
        # binary search; comparisons fork
        lo, hi = 0, len(lst)
        while lo < hi:
            m = (lo + hi) // 2
            c = _lt(lst[m], x) if side == 'left' else _le(lst[m], x)
            if bool(c):
                lo = m + 1
            else:
                hi = m
        return lo

    def fm(x):
        s = 0
        for y in lst:
            c = _lt(y, x) if side == 'left' else _le(y, x)
            s = s + (T.ind(c) if is_sym(c) else int(c))
        return s
    g = fm if getattr(T.Fork.ctx, 'merge', False) else f
    o = asobj(v)[0]
    return out_(omap(g, o), I8)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    ar = asarray(ar)
    r = to_real(ar)
    if r is None:
        if (ar.dtype.kind in 'iub' and (axis is not None or not getattr(T.Fork.ctx, 'sym_unique', False))) or \
                ar.dtype.kind == 'f' and not getattr(T.Fork.ctx, 'sym_unique', False) and all_(not isinstance(v, Term) or T.is_int(v) for v in ar.a.reshape(-1)):
            r = conc(ar).real_array()
        else:
            if axis is not None:
                raise Unsupported("unique over rows of reals")
            v = list(ar.a.reshape(-1))
            order = sorted(range(len(v)), key=functools.cmp_to_key(lambda p, q: _cmpsort(v[p], v[q])))
            vals, inv, cnt, idx = [], [0] * len(v), [], []
            for o in order:
                if vals and bool(T.cmp_(v[o], vals[-1], '==')):
                    cnt[-1] += 1
                else:
                    vals.append(v[o])
                    cnt.append(1)
                    idx.append(o)
                inv[o] = len(vals) - 1
            res = [asarray(vals)]
            if return_index:
                res.append(asarray(idx))
            if return_inverse:
                res.append(asarray(inv))
            if return_counts:
                res.append(asarray(cnt))
            return res[0] if len(res) == 1 else tuple(res)
    return wrap(rnp.unique(r, return_index, return_inverse, return_counts, axis))


def bincount(x, weights=None, minlength=0):
    x = conc(asarray(x))
    if weights is None:
        return wrap(rnp.bincount(x.real_array(), minlength=minlength))
    xr = x.real_array()
    w = asarray(weights)
    n = max_(int(xr.max()) + 1 if xr.size else 0, minlength)
    out = zeros(n)
    for i, j in enumerate(xr):
        out.a[int(j)] = _add(out.a[int(j)], w.a[i])
    return out


def isin(element, test_elements, assume_unique=False, invert=False, **k):
    e = asarray(element)
    if isinstance(test_elements, (set, frozenset)) or isinstance(test_elements, dict):
        # numpy treats a set as a 0-d object: nothing matches
        r = rnp.isin(to_real(e), test_elements) if to_real(e) is not None else rnp.zeros(e.shape, bool)
        return wrap(r if not invert else ~r)
    t = asarray(test_elements)
    re, rt = to_real(e), to_real(t)
    if re is not None and rt is not None:
        return wrap(rnp.isin(re, rt, invert=invert))
    tv = list(t.a.reshape(-1))

    def f(v):
        b = T.bor(*[_eq(v, x) for x in tv])
        return T.bnot(b) if invert else b
    return SymArray(omap(f, e.a), B1)


def in1d(a, b, **k):
    return isin(asarray(a).ravel(), b, **k)


def nonzero(a):
    a = asarray(a)
    m = rnp.array([bool(_tb(v)) for v in a.a.reshape(-1)], dtype=bool).reshape(a.shape)
    return tuple(SymArray.of(x) for x in rnp.nonzero(m))


def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


def argwhere(a):
    return transpose(asarray([list(x.a) for x in nonzero(a)]))


def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)
    rc, rx, ry = to_real(c), to_real(x), to_real(y)
    if rc is not None and rx is not None and ry is not None:
        return wrap(rnp.where(rc, rx, ry))
    co, xo, yo = asobj(c), asobj(x), asobj(y)
    dt = res_dtype('where', [xo, yo])

    def f(a, b, d):
        a = _tb(a)
        if is_sym(a):
            if getattr(T.Fork.ctx, 'merge', False) or not _dataish(a):
                return T.ite(a, b, d)
            return b if bool(a) else d
        return b if a else d
    return out_(omap(f, co[0], xo[0], yo[0]), dt)


def _dataish(b):
    ctx = T.Fork.ctx
    if ctx is None:
        return False
    vs = T.collect_vars(b)
    return bool(vs) and all_(n in ctx.dom for n in vs)


def select(condlist, choicelist, default=0):
    r = asarray(default)
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = where(c, x, r)
    return r


def choose(a, choices, **k):
    a = conc(asarray(a))
    ch = [asarray(c) for c in choices]
    b = rnp.broadcast_arrays(a.a, *[c.a for c in ch])
    out = rnp.empty(b[0].shape, dtype=object)
    for i in rnp.ndindex(*b[0].shape):
        out[i] = b[1 + int(b[0][i])][i]
    return SymArray(out, functools.reduce(_promote, [c.dtype for c in ch]))


def putmask(a, mask, values):
    v = asarray(values)
    if v.size == 1:
        a[asarray(mask)] = v.item()
    else:
        m = asarray(mask)
        a[m] = v[m] if v.shape == m.shape else v


def copyto(dst, src, where=True, **k):
    if where is True:
        assign(dst, Ellipsis, src)
    else:
        w = asarray(where)
        s = rnp.broadcast_to(asobj(src)[0], dst.shape)
        m = rnp.broadcast_to(w.a, dst.shape)
        new = omap(lambda c, n, o: conv_scalar(T.ite(c, n, o) if is_sym(c) else (n if c else o), dst.dtype),
                   m, s, dst.a)
        dst.a[...] = new


def place(arr, mask, vals):
    arr[asarray(mask)] = vals


def take(a, indices, axis=None, **k):
    return asarray(a).take(indices, axis)


def take_along_axis(arr, indices, axis):
    arr, idx = asarray(arr), conc(asarray(indices))
    ii = idx.real_array()
    if axis is None:
        return SymArray(rnp.take_along_axis(arr.a.reshape(-1), ii, 0), arr.dtype)
    return SymArray(rnp.take_along_axis(arr.a, ii, axis), arr.dtype)


def put_along_axis(arr, indices, values, axis):
    idx = conc(asarray(indices)).real_array()
    v = asarray(values)
    v = v.astype(arr.dtype)
    rnp.put_along_axis(arr.a, idx, v.a if v.ndim else v.item(), axis)


def delete(arr, obj, axis=None):
    arr = asarray(arr)
    if isinstance(obj, SymArray):
        obj = _k1(obj)
    elif is_sym(obj):
        obj = T.concretize(obj)
    return SymArray(rnp.delete(arr.a, obj, axis), arr.dtype)


def insert(arr, obj, values, axis=None):
    arr = asarray(arr)
    v = asarray(values).astype(arr.dtype)
    if isinstance(obj, SymArray):
        obj = _k1(obj)
    return SymArray(rnp.insert(arr.a, obj, v.a if v.ndim else v.item(), axis), arr.dtype)


def append(arr, values, axis=None):
    arr = asarray(arr)
    values = asarray(values)
    if axis is None:
        return concatenate([arr.ravel(), values.ravel()])
    return concatenate([arr, values], axis=axis)


# -------------------------------------------------------- joining / shape
def _seq(arrs):
    return [asarray(a) for a in arrs]


def _join(fn, arrs, **k):
    arrs = _seq(arrs)
    dt = functools.reduce(_promote, [a.dtype for a in arrs])
    arrs = [a.astype(dt) if a.dtype != dt else a for a in arrs]
    return SymArray(fn([a.a for a in arrs], **k), dt)


def concatenate(arrs, axis=0, out=None, dtype=None, **k):
    arrs = _seq(arrs)
    if any_(a.ndim == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    r = _join(rnp.concatenate, arrs, axis=axis)
    if dtype is not None:
        r = r.astype(dtype)
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


def stack(arrs, axis=0, **k):
    return _join(rnp.stack, list(arrs), axis=axis)


def vstack(arrs, **k):
    return _join(rnp.vstack, [atleast_2d(a) for a in arrs])


row_stack = vstack


def hstack(arrs, **k):
    return _join(rnp.hstack, [atleast_1d(a) for a in arrs])


def dstack(arrs):
    return _join(rnp.dstack, list(arrs))


def column_stack(arrs):
    return _join(rnp.column_stack, list(arrs))


class _CClass:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any_(isinstance(k, (slice, str)) for k in key):
            ks = [asarray(rnp.r_[k]) if isinstance(k, slice) else k for k in key]
            key = tuple(ks)
        if self.col:
            parts = []
            for k in key:
                k = asarray(k)
                if k.ndim == 0:
                    k = k.reshape(1, 1)
                elif k.ndim == 1:
                    k = k.reshape(-1, 1)
                parts.append(k)
            return concatenate(parts, axis=-1)
        return concatenate([atleast_1d(k) for k in key], axis=0)


c_ = _CClass(True)
r_ = _CClass(False)


def atleast_1d(*arys):
    r = [(a if a.ndim else a.reshape(1)) for a in map(asarray, arys)]
    return r[0] if len(r) == 1 else r


def atleast_2d(*arys):
    r = []
    for a in map(asarray, arys):
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[None, :]
        r.append(a)
    return r[0] if len(r) == 1 else r


def atleast_3d(a):
    a = asarray(a)
    return SymArray(rnp.atleast_3d(a.a), a.dtype)


def _structural(name):
    fn = getattr(rnp, name)

    def f(a, *x, **k):
        a = asarray(a)
        x = [y.real_array() if isinstance(y, SymArray) else (T.concretize(y) if is_sym(y) else y) for y in x]
        k = {n: (y.real_array() if isinstance(y, SymArray) else (T.concretize(y) if is_sym(y) else y))
             for n, y in k.items()}
        r = fn(a.a, *x, **k)
        if isinstance(r, rnp.ndarray):
            return SymArray(r, a.dtype)
        if isinstance(r, (list, tuple)):
            return type(r)(SymArray(y, a.dtype) for y in r)
        return r
    f.__name__ = name
    return f


for _n in ('reshape', 'ravel', 'transpose', 'squeeze', 'expand_dims', 'swapaxes', 'moveaxis',
           'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'repeat', 'tile', 'broadcast_to',
           'split', 'array_split', 'hsplit', 'vsplit', 'resize', 'diagonal', 'rollaxis'):
    globals()[_n] = _structural(_n)


def squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


def broadcast_arrays(*arrs, **k):
    arrs = _seq(arrs)
    bs = rnp.broadcast_arrays(*[a.a for a in arrs])
    return [SymArray(b, a.dtype) for a, b in zip(arrs, bs)]


def meshgrid(*xi, **k):
    arrs = _seq(xi)
    ms = rnp.meshgrid(*[a.a for a in arrs], **k)
    return [SymArray(rnp.array(m, dtype=object), a.dtype) for a, m in zip(arrs, ms)]


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        n = v.size + abs_(k)
        o = zeros((n, n), dtype=v.dtype)
        for i in range(v.size):
            o.a[(i, i + k) if k >= 0 else (i - k, i)] = v.a[i]
        return o
    r = SymArray(rnp.diagonal(v.a, k), v.dtype)
    return r


def fill_diagonal(a, val, wrap=False):
    v = asarray(val)
    n = min_(a.shape)
    for i in range(n):
        a[i, i] = v.item() if v.size == 1 else v[i]


def tril(m, k=0):
    m = asarray(m)
    o = m.copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j > i + k:
                o.a[i, j] = conv_scalar(0, m.dtype)
    return o


def triu(m, k=0):
    m = asarray(m)
    o = m.copy()
    for i in range(m.shape[0]):
        for j in range(m.shape[1]):
            if j < i + k:
                o.a[i, j] = conv_scalar(0, m.dtype)
    return o


def trace(a, **k):
    return sum(diag(a))


def size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


def shape(a):
    return asarray(a).shape


def ndim(a):
    return asarray(a).ndim


# ------------------------------------------------------------------ linalg
def _dotv(x, y):
    s = 0
    for p, q in zip(x, y):
        s = _num(s) + _mul(_num(p), _num(q))
    return s


def matmul(a, b, out=None, **k):
    ra, rb = to_real(a), to_real(b)
    if ra is not None and rb is not None:
        with rnp.errstate(all='ignore'):
            r = wrap(rnp.matmul(ra, rb))
    else:
        a, b = asarray(a), asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        dt = _promote(a.dtype, b.dtype)
        x, y = a.a, b.a
        if a.ndim > 2 or b.ndim > 2:
            bs = rnp.broadcast_shapes(x.shape[:-2], y.shape[:-2])
            X = rnp.broadcast_to(x, bs + x.shape[-2:])
            Y = rnp.broadcast_to(y, bs + y.shape[-2:])
            o = rnp.empty(bs + (x.shape[-2], y.shape[-1]), dtype=object)
            for i in rnp.ndindex(*bs):
                o[i] = matmul(SymArray(X[i], a.dtype), SymArray(Y[i], b.dtype)).a
            r = SymArray(o, dt)
        else:
            x2 = x if x.ndim == 2 else x[None, :]
            y2 = y if y.ndim == 2 else y[:, None]
            if x2.shape[1] != y2.shape[0]:
                raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0, with "
                                 "gufunc signature (n?,k),(k,m?)->(n?,m?) (size %d is different from %d)"
                                 % (y2.shape[0], x2.shape[1]))
            o = rnp.empty((x2.shape[0], y2.shape[1]), dtype=object)
            for i in range(o.shape[0]):
                for j in range(o.shape[1]):
                    o[i, j] = _dotv(x2[i], y2[:, j])
            if x.ndim == 1:
                o = o[0]
            if y.ndim == 1:
                o = o[..., 0]
            if not isinstance(o, rnp.ndarray):
                return o
            r = out_(o, dt)
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


def dot(a, b, out=None):
    a1, b1 = asarray(a), asarray(b)
    if a1.ndim == 0 or b1.ndim == 0:
        return multiply(a, b)
    if b1.ndim > 2 or a1.ndim > 2:
        raise Unsupported("dot nd")
    if a1.shape[-1] != b1.shape[0 if b1.ndim == 1 else -2]:
        raise ValueError("shapes %s and %s not aligned" % (a1.shape, b1.shape))
    return matmul(a1, b1, out)


def vdot(a, b):
    return dot(asarray(a).ravel(), asarray(b).ravel())


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return matmul(a, b.T)


def outer(a, b, out=None):
    r = asarray(a).ravel()[:, None] * asarray(b).ravel()[None, :]
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


def kron(a, b):
    a, b = atleast_2d(a), atleast_2d(b)
    return (a[:, None, :, None] * b[None, :, None, :]).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    na = [i for i in range(a.ndim) if i not in ax]
    nb = [i for i in range(b.ndim) if i not in bx]
    n = 1
    for i in ax:
        n *= a.shape[i]
    A = a.transpose(na + ax).reshape(-1, n)
    B = b.transpose(bx + nb).reshape(n, -1)
    return asarray(matmul(A, B)).reshape(tuple(a.shape[i] for i in na) + tuple(b.shape[i] for i in nb))


def einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum list form")
    reals = [to_real(o) for o in ops]
    if all_(r is not None for r in reals):
        r = wrap(rnp.einsum(spec, *reals))
    else:
        spec = spec.replace(' ', '')
        ins, _, outs = spec.partition('->')
        ins = ins.split(',')
        arrs = _seq(ops)
        if len(ins) != len(arrs):
            raise ValueError("einsum operands mismatch")
        if '.' in spec:
            raise Unsupported("einsum ellipsis")
        if '->' not in spec:
            al = ''.join(ins)
            outs = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        dims = {}
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim:
                raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
            for c, n in zip(s, a.shape):
                if dims.setdefault(c, n) != n and n != 1:
                    raise ValueError("operands could not be broadcast together (einsum)")
        summed = sorted(set(''.join(ins)) - set(outs))
        o = rnp.empty(tuple(dims[c] for c in outs), dtype=object)
        for oi in rnp.ndindex(*o.shape):
            env = dict(zip(outs, oi))
            s = 0
            for si in itertools.product(*[range(dims[c]) for c in summed]):
                env.update(zip(summed, si))
                p = 1
                for sp, a in zip(ins, arrs):
                    p = _mul(p, _num(a.a[tuple(env[c] for c in sp)]))
                s = _num(s) + p
            o[oi] = s
        r = out_(o, functools.reduce(_promote, [a.dtype for a in arrs]))
    out = k.get('out')
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


def convolve(a, v, mode='full'):
    a, v = atleast_1d(a), atleast_1d(v)
    ra, rv = to_real(a), to_real(v)
    if ra is not None and rv is not None:
        return wrap(rnp.convolve(ra, rv, mode))
    if mode != 'full':
        raise Unsupported("convolve mode")
    n = a.size + v.size - 1
    o = rnp.empty((n,), dtype=object)
    for i in range(n):
        s = 0
        for j in range(a.size):
            if 0 <= i - j < v.size:
                s = _num(s) + _mul(_num(a.a[j]), _num(v.a[i - j]))
        o[i] = s
    return SymArray(o, _promote(a.dtype, v.dtype))


def corrcoef(x, y=None, rowvar=True, **k):
    r = [to_real(x), to_real(y) if y is not None else 0]
    if r[0] is not None and r[1] is not None:
        with rnp.errstate(all='ignore'):
            return wrap(rnp.corrcoef(r[0], None if y is None else r[1], rowvar))
    c = cov(x, y, rowvar)
    d = sqrt(diag(c))
    return c / d[:, None] / d[None, :]


def cov(x, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = atleast_2d(x)
    if not rowvar and X.shape[0] != 1:
        X = X.T
    if y is not None:
        Y = atleast_2d(y)
        if not rowvar and Y.shape[0] != 1:
            Y = Y.T
        X = concatenate([X, Y], axis=0)
    r = to_real(X)
    if r is not None:
        return wrap(rnp.cov(r, bias=bias, ddof=ddof))
    if ddof is None:
        ddof = 0 if bias else 1
    X = X - mean(X, axis=1)[:, None]
    return squeeze(matmul(X, X.T) / (X.shape[1] - ddof))


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        d = dx
    else:
        d = diff(x)
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return sum((y[tuple(s1)] + y[tuple(s2)]) * d / 2, axis=axis)


def interp(x, xp, fp, left=None, right=None, **k):
    rs = [to_real(v) for v in (x, xp, fp)]
    if all_(r is not None for r in rs):
        return wrap(rnp.interp(*rs, left=left, right=right))
    xp, fp = asarray(xp), asarray(fp)

    def f(v):
        n = xp.size
        if bool(_lt(v, xp.a[0])):
            return fp.a[0] if left is None else left
        if bool(_gt(v, xp.a[n - 1])):
            return fp.a[n - 1] if right is None else right
        for i in range(n - 1):
            if i == n - 2 or bool(_le(v, xp.a[i + 1])):
                return fp.a[i] + (v - xp.a[i]) * (fp.a[i + 1] - fp.a[i]) / (xp.a[i + 1] - xp.a[i])
    return out_(omap(f, asobj(x)[0]), F8)


def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = asarray(arr)
    x = rnp.moveaxis(arr.a, axis, -1)
    res = None
    for idx in rnp.ndindex(*x.shape[:-1]):
        # numpy hands the function a fresh 1-d view and copies out the result
        r = func1d(SymArray(x[idx], arr.dtype), *args, **kwargs)
        ro, rdt, _ = asobj(r)
        if res is None:
            res = rnp.empty(x.shape[:-1] + ro.shape, dtype=object)
            dt = rdt
        res[idx] = ro if ro.ndim else ro[()]
    if res is None:
        raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    nd = len(x.shape[:-1])
    if res.ndim > nd:
        for i in range(res.ndim - nd):
            res = rnp.moveaxis(res, nd + i, axis + i if axis >= 0 else axis)
    return SymArray(res, dt)


def vectorize(f, *a, **k):
    def g(*xs):
        os = [asobj(x)[0] for x in xs]
        r = omap(f, *os)
        dt = functools.reduce(_promote, [store_kind(v) for v in r.reshape(-1)])
        return out_(r, dt)
    return g


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(a == b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return all(absolute(asarray(a) - b) <= atol + rtol * absolute(b))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return absolute(asarray(a) - b) <= atol + rtol * absolute(b)


def around(a, decimals=0, out=None):
    r = to_real(a)
    if r is not None:
        return wrap(rnp.around(r, decimals))
    a = asarray(a)
    if all_(T.is_int(v) for v in a.a.reshape(-1)):
        return a.copy()
    raise Unsupported("round of symbolic reals")


round_ = round = around


def real(x):
    return asarray(x) if not is_sym(x) else x


def imag(x):
    return zeros_like(x)


def conj(x):
    return x


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype)


def fromfunction(f, shape, dtype=float, **k):
    idx = [SymArray.of(x.astype(dtype)) for x in rnp.indices(shape)]
    return f(*idx)


def ix_(*args):
    arrs = []
    for a in args:
        a = asarray(a)
        if a.dtype.kind == 'b':
            a = nonzero(a)[0]
        arrs.append(conc(a).real_array())
    return tuple(SymArray.of(x) for x in rnp.ix_(*arrs))


def iterable(x):
    return hasattr(x, '__iter__')


def isscalar(x):
    return is_sym(x) or rnp.isscalar(x)


def ndenumerate(a):
    a = asarray(a)
    for i in rnp.ndindex(*a.shape):
        yield i, a.a[i]


def nditer(*a, **k):
    raise Unsupported("nditer")


def require(a, *x, **k):
    return asarray(a)


def setdiff1d(a, b, **k):
    return wrap(rnp.setdiff1d(conc(asarray(a)).real_array(), conc(asarray(b)).real_array(), **k))


def union1d(a, b):
    return unique(concatenate([asarray(a).ravel(), asarray(b).ravel()]))


def intersect1d(a, b, **k):
    return wrap(rnp.intersect1d(conc(asarray(a)).real_array(), conc(asarray(b)).real_array(), **k))


def lexsort(keys, axis=-1):
    return wrap(rnp.lexsort(conc(asarray(keys)).real_array(), axis))


def issubdtype(a, b):
    return rnp.issubdtype(a, b)


def result_type(*xs):
    return rnp.result_type(*[x.dtype if isinstance(x, SymArray) else x for x in xs])


# ------------------------------------------------------------ masked arrays
class MaskedArray:
    """the part of numpy.ma the code base relies on (reductions over valid cells)"""
    __array_ufunc__ = None

    def __init__(self, data, mask=False, **k):
        self.data = asarray(data)
        m = asarray(mask)
        self.mask = SymArray(rnp.array(rnp.broadcast_to(m.a, self.data.shape), dtype=object), B1) \
            if m.shape != self.data.shape else m
        self.shape = self.data.shape
        self.ndim = self.data.ndim

    _masked = True

    def _red(self, f, axis, dt, empty):
        v = ~self.mask
        flat, shp = _groups(self.data.a, axis, False)
        wf, _ = _groups(v.a, axis, False)
        vals, masks = [], []
        for i in range(flat.shape[0]):
            cnt = _cnt(list(flat[i]), list(wf[i]))
            none = (cnt == 0)
            if is_sym(none):
                none = bool(none)
            if none:
                vals.append(0.0)
                masks.append(True)
            else:
                vals.append(f(list(flat[i]), list(wf[i])))
                masks.append(False)
        d = rnp.empty(len(vals), dtype=object)
        m = rnp.empty(len(vals), dtype=object)
        for i in range(len(vals)):
            d[i], m[i] = vals[i], masks[i]
        if shp == ():
            return MaskedConst() if masks[0] else vals[0]
        return MaskedArray(SymArray(d.reshape(shp), dt), SymArray(m.reshape(shp), B1))

    def var(self, axis=None, ddof=0, **k):
        return self._red(_varf(ddof), axis, F8, None)

    def std(self, axis=None, ddof=0, **k):
        f = _varf(ddof)
        return self._red(lambda v, w: T.sqrt(f(v, w)) if is_sym(f(v, w)) else math.sqrt(f(v, w)), axis, F8, None)

    def mean(self, axis=None, **k):
        return self._red(lambda v, w: _div(_wsum(v, w), _cnt(v, w)), axis, F8, None)

    def sum(self, axis=None, **k):
        return self._red(_wsum, axis, self.data.dtype, None)

    def _ext(self, pick, axis):
        def f(v, w):
            cur = None
            for x, c in zip(v, w):
                if not bool(c):
                    continue
                cur = x if cur is None else pick(cur, x)
            return cur
        return self._red(f, axis, self.data.dtype, None)

    def min(self, axis=None, **k):
        return self._ext(T.smin, axis)

    def max(self, axis=None, **k):
        return self._ext(T.smax, axis)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def count(self, axis=None, **k):
        return count_nonzero(~self.mask, axis=axis)

    def all(self, axis=None, **k):
        return self._red(lambda v, w: T.band(*[T.bor(_tb(x), T.bnot(c)) for x, c in zip(v, w)]), axis, B1, None)

    def any(self, axis=None, **k):
        return self._red(lambda v, w: T.bor(*[T.band(_tb(x), c) for x, c in zip(v, w)]), axis, B1, None)

    def filled(self, v=0):
        return where(self.mask, v, self.data)

    def compressed(self):
        return self.data[~self.mask]

    def copy(self):
        return MaskedArray(self.data.copy(), self.mask.copy())

    def astype(self, dt):
        return MaskedArray(self.data.astype(dt), self.mask)

    def __getitem__(self, k):
        d, m = self.data[k], self.mask[k]
        if isinstance(d, SymArray):
            return MaskedArray(d, m)
        return MaskedConst() if bool(m) else d

    def __len__(self):
        return len(self.data)

    def __invert__(self):
        return MaskedArray(where(self.mask, self.data, ~self.data) if False else
                           SymArray(omap(lambda v, m: v if m is True else T.bnot(v), self.data.a, self.mask.a), B1),
                           self.mask)

    def __neg__(self):
        return MaskedArray(-self.data, self.mask)


def _madunder(n, f, uname):
    def m(self, o):
        if isinstance(o, MaskedArray):
            return MaskedArray(binop(f, self.data, o.data, uname), self.mask | o.mask)
        return MaskedArray(binop(f, self.data, o, uname), self.mask)

    def r(self, o):
        return MaskedArray(binop(f, o, self.data, uname), self.mask)
    setattr(MaskedArray, '__%s__' % n, m)
    if n not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(MaskedArray, '__r%s__' % n, r)


for _n, _f, _u in (('add', _add, 'add'), ('sub', _sub, 'subtract'), ('mul', _mul, 'multiply'),
                   ('truediv', _div, 'true_divide'), ('pow', _pow, 'power'), ('lt', _lt, 'less'),
                   ('le', _le, 'less_equal'), ('gt', _gt, 'greater'), ('ge', _ge, 'greater_equal'),
                   ('eq', _eq, 'equal'), ('ne', _ne, 'not_equal'), ('and', _and, 'logical_and'),
                   ('or', _or, 'logical_or')):
    _madunder(_n, _f, _u)

# numpy indexes with the *data* of a masked boolean array
_old_k1 = _k1


def _k1(k):      # noqa: F811
    if isinstance(k, MaskedArray):
        return _old_k1(k.data)
    return _old_k1(k)


_old_asobj = asobj


def asobj(x):    # noqa: F811
    if isinstance(x, MaskedArray):
        return x.data.a, x.data.dtype, False
    return _old_asobj(x)


class MaskedConst(MaskedArray):
    def __init__(self):
        self.data = asarray(0.0)
        self.mask = asarray(True)
        self.shape = ()
        self.ndim = 0

    def __bool__(self):
        return False

    def __float__(self):
        return math.nan


ma = types.ModuleType('numpy.ma')
ma.masked_array = MaskedArray
ma.MaskedArray = MaskedArray
ma.array = MaskedArray
ma.masked_equal = lambda x, v, **k: MaskedArray(x, asarray(x) == v)
ma.masked_where = lambda c, x, **k: MaskedArray(x, c)
ma.masked_values = ma.masked_equal
ma.masked_invalid = lambda x, **k: MaskedArray(x, isnan(x))
ma.getdata = lambda x, **k: x.data if isinstance(x, MaskedArray) else asarray(x)
ma.filled = lambda x, v=None: x.filled(v)
ma.var = lambda x, *a, **k: x.var(*a, **k)


# ------------------------------------------------------------------ module
class NumpyProxy(types.ModuleType):
    def __init__(self, extra=None):
        super().__init__('numpy')
        d = globals()
        names = [n for n in d if not n.startswith('_') and n not in _PRIVATE]
        for n in names:
            self.__dict__[n] = d[n]
        for n in ('c_', 'r_'):
            self.__dict__[n] = d[n]
        self.__dict__['ndarray'] = ndarray
        self.__dict__['ma'] = ma
        self.__path__ = []
        self.__version__ = rnp.__version__
        if extra:
            self.__dict__.update(extra)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(rnp, n)
        if isinstance(v, type) or not callable(v):
            return v
        return generic(n, v)


_PRIVATE = {'T', 'Term', 'Bool', 'Unsupported', 'rnp', 'functools', 'itertools', 'math', 'numbers',
            'sys', 'types', 'F8', 'I8', 'B1', 'is_sym', 'conv_scalar', 'store_kind', 'pyval', 'omap',
            'scalar_out', 'out_', 'asobj', 'res_dtype', 'binop', 'to_real', 'wrap', 'conv_key', 'setitem',
            'assign', 'conc', 'generic', 'NumpyProxy', 'SymArray', 'MaskedArray', 'MaskedConst', 'Ufunc2',
            'nprange', 'all_', 'any_', 'sum_', 'max_', 'min_', 'abs_', 'product_'}


def generic(name, fn):
    """any other numpy function: real numpy when concrete, object fallback otherwise"""
    def g(*a, **k):
        ra = [to_real(x) if isinstance(x, (SymArray, Term, Bool)) else _deep(x) for x in a]
        rk = {n: (to_real(x) if isinstance(x, (SymArray, Term, Bool)) else _deep(x)) for n, x in k.items()}
        ok = all_(not (r is None and x is not None) for r, x in zip(ra, a)) and \
            all_(not (rk[n] is None and k[n] is not None) for n in k)
        if ok and not any_(r is _SYM for r in ra) and not any_(r is _SYM for r in rk.values()):
            with rnp.errstate(all='ignore'):
                return wrap(fn(*ra, **rk))
        raise Unsupported("numpy.%s on symbolic data" % name)
    g.__name__ = name
    return g


_SYM = object()


def _deep(x):
    if isinstance(x, (list, tuple)):
        r = [_deep(e) if not isinstance(e, (SymArray, Term, Bool)) else to_real(e) for e in x]
        if any_(v is _SYM or (v is None and e is not None) for v, e in zip(r, x)):
            return _SYM
        return type(x)(r) if type(x) in (list, tuple) else r
    return x
