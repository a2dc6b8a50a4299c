"""Load the girth package fresh from the repository's current source.

The symbolic load parses every module, redirects its imports to the symbolic
numpy/scipy and rewrites calls of a few builtins (int, max, isinstance, ...)
to versions that accept symbolic scalars.  The concrete load executes the same
source unmodified with real numpy/scipy (optimisers and random numbers are the
recording stubs).
"""
import ast
import builtins
import os
import sys
import types

from . import term as T
from . import stubs
from .term import Term, Bool

REPO = os.environ.get('SYMX_REPO', '/repo')

PKG = {
    'girth': 'estimation',
    'girth.common': 'common',
    'girth.synthetic': 'synthetic',
    'girth.factoranalysis': 'factoranalysis',
}


def locate(name):
    """module name -> (path, is_package) or None"""
    best = None
    for p, d in PKG.items():
        if name == p or name.startswith(p + '.'):
            if best is None or len(p) > len(best[0]):
                best = (p, d)
    if best is None:
        return None
    rest = name[len(best[0]):].strip('.')
    base = os.path.join(REPO, best[1], *rest.split('.')) if rest else os.path.join(REPO, best[1])
    if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py'), True
    if os.path.exists(base + '.py'):
        return base + '.py', False
    if os.path.isdir(base):
        return None, True
    return None


# --------------------------------------------------- builtins for symbolic mode
def sx_int(x=0, *a):
    if hasattr(x, '__symarray__') and x.size == 1:
        x = x.a.reshape(-1)[0]
    if isinstance(x, Term):
        return T.trunc_(x)
    if isinstance(x, Bool):
        return T.ind(x)
    return builtins.int(x, *a)


def sx_float(x=0.0):
    if hasattr(x, '__symarray__') and x.size == 1:
        x = x.a.reshape(-1)[0]
    if isinstance(x, Term):
        return x
    if isinstance(x, Bool):
        return T.ind(x)
    return builtins.float(x)


def sx_abs(x):
    if isinstance(x, Term):
        return T.abs_(x)
    return builtins.abs(x)


def _fold(f, pick):
    def g(*a, **k):
        if k:
            return f(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not builtins.any(isinstance(x, Term) for x in xs):
            return f(*a)
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r
    return g


sx_max = _fold(builtins.max, T.smax)
sx_min = _fold(builtins.min, T.smin)


def sx_isinstance(x, types_):
    if isinstance(x, (Term, Bool)):
        ts = types_ if isinstance(types_, tuple) else (types_,)
        flat = []
        for t in ts:
            flat += list(t) if isinstance(t, tuple) else [t]
        import numbers
        import numpy as rnp
        for t in flat:
            if isinstance(x, Bool):
                if t in (bool, int, rnp.bool_, numbers.Integral, numbers.Number, numbers.Real, object):
                    return True
                continue
            isint = T.is_int(x)
            if t in (numbers.Number, numbers.Real, object, rnp.number, rnp.generic):
                return True
            if isint and t in (int, numbers.Integral, rnp.integer):
                return True
            if not isint and t in (float, rnp.floating):
                return True
        return False
    if isinstance(x, SymArrayT):
        import numpy as rnp
        ts = types_ if isinstance(types_, tuple) else (types_,)
        if rnp.ndarray in ts:
            return True
    return builtins.isinstance(x, types_)


SymArrayT = stubs.S.SymArray


def sx_round(x, n=None):
    if isinstance(x, Term):
        raise T.Unsupported("round")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sx_bool(x=False):
    return x if isinstance(x, Bool) else (x != 0 if isinstance(x, Term) else builtins.bool(x))


def sx_callable(x):
    return builtins.callable(x)


SX = {'int': sx_int, 'float': sx_float, 'abs': sx_abs, 'max': sx_max, 'min': sx_min,
      'isinstance': sx_isinstance, 'round': sx_round}


class _Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SX:
            node.func = ast.copy_location(ast.Name(id='__sx_%s' % node.func.id, ctx=ast.Load()), node.func)
        return node


_CODE = {}       # per process: the source is read once per run


class Loader:
    def __init__(self, symbolic, overrides=None):
        self.made = (symbolic, overrides)
        self.symbolic = symbolic
        self.ext = stubs.modules(symbolic)
        self.mods = {}
        self.files = {}
        self.overrides = overrides or {}
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        if symbolic:
            for k, f in SX.items():
                b['__sx_' + k] = f
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        loc = locate(name)
        if loc is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        path, ispkg = loc
        m = types.ModuleType(name)
        m.__builtins__ = self.builtins
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = []
        m.__file__ = path
        self.mods[name] = m
        try:
            if path is not None:
                key = (path, self.symbolic)
                code = _CODE.get(key)
                if code is None:
                    src = open(path, encoding='utf-8').read()
                    tree = ast.parse(src, path)
                    if self.symbolic:
                        tree = ast.fix_missing_locations(_Rewrite().visit(tree))
                    code = _CODE[key] = compile(tree, path, 'exec')
                self.files[name] = path
                exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        ov = self.overrides.get(name)
        if ov:
            for k, f in ov.items():
                orig = m.__dict__.get(k)
                m.__dict__[k] = f(orig)
        if '.' in name:
            p, c = name.rsplit('.', 1)
            setattr(self.mods[p], c, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        if name == 'girth' or name.startswith('girth.'):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split('.')[0])
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and locate(name + '.' + f) is not None:
                    self.load(name + '.' + f)
            return m
        m = self.ext.get(name)
        if m is not None:
            if fromlist:
                return m
            return self.ext.get(name.split('.')[0]) if '.' in name else m
        top = name.split('.')[0]
        if top in self.ext and '.' in name:
            # unknown submodule of a stubbed package
            import importlib
            real = importlib.import_module(name)
            if self.symbolic:
                real = stubs._Module(name, {}, real, True)
            self.ext[name] = real
            return real if fromlist else self.ext[top]
        return builtins.__import__(name, globals, locals, fromlist, level)


class G:
    """handle given to scenarios: lazily loads modules by dotted name"""

    def __init__(self, loader, world):
        self.loader = loader
        self.w = world
        self.np = loader.ext['numpy']
        self.sp = loader.ext['scipy']

    def mod(self, name):
        return self.loader.load(name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        for m in ('girth', 'girth.synthetic', 'girth.common', 'girth.factoranalysis', 'girth.multidimensional'):
            v = getattr(self.loader.load(m), n, None)
            if v is not None:
                return v
        raise AttributeError(n)
