"""Load /repo's current Python source as a symbolic package.

The source text is read on every run.  AST rewriting: float literals become exact rationals, `/` and `**`
become exact operations, unittest classes are dropped, imports of numpy/scipy/math resolve to the shims.
"""
import ast
import builtins
import hashlib
import os
import types
from fractions import Fraction
import numpy as np
from . import expr as X
from .expr import E, lift, const
from . import npshim as S

REPO = os.environ.get('WIZ_REPO', '/repo')


def C(s): return const(Fraction(s))


def DIV(a, b):
    if isinstance(a, np.ndarray):
        a = S.obj(a)
    if isinstance(b, np.ndarray):
        b = S.obj(b)
    la, lb = lift(a) if not isinstance(a, np.ndarray) else None, lift(b) if not isinstance(b, np.ndarray) else None
    if la is not None and lb is not None:
        r = X.div(la, lb)
        if X.isc(lb, 0) and isinstance(a, int) and isinstance(b, int):
            raise ZeroDivisionError('division by zero')
        return r
    return (la if la is not None else a) / (lb if lb is not None else b)


def POW(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b >= 0:
        return a ** b
    if isinstance(a, np.ndarray):
        a = S.obj(a)
    if isinstance(b, np.ndarray):
        b = S.obj(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return S.NP.power(a, b)
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return a ** b
    return X.power(la, lb)


def IDIV(a, b):
    if isinstance(a, np.ndarray) and a.dtype == object:
        a /= S.obj(b)
        return a
    return DIV(a, b)


def IPOW(a, b):
    if isinstance(a, np.ndarray) and a.dtype == object:
        a[...] = POW(a, b)
        return a
    return POW(a, b)


class _W:
    """item assignment with numpy's rule for float arrays: a size-1 value is accepted where a scalar goes"""
    __slots__ = ('a',)

    def __init__(self, a): self.a = a
    def __getitem__(self, i): return self.a[i]

    def __setitem__(self, i, v):
        a = self.a
        if isinstance(v, (list, tuple, np.ndarray)) and not isinstance(a[i], np.ndarray):
            w = S.asarray(v)
            if w.size != 1:
                raise ValueError('setting an array element with a sequence.')
            v = w.reshape(-1)[0]
        elif isinstance(v, (list, tuple)):
            v = S.asarray(v)
        a[i] = v


def W(a):
    return _W(a) if isinstance(a, np.ndarray) and a.dtype == object else a


def ASTYPE(a, dtype=None, *args, **k):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return S.NP.array(a, dtype=dtype)
    return a.astype(dtype, *args, **k)


class T(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'astype':
            return ast.copy_location(ast.Call(ast.Name('__ASTYPE__', ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Store):
            n.value = ast.copy_location(ast.Call(ast.Name('__W__', ast.Load()), [n.value], []), n)
        return n

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('__C__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: '__DIV__', ast.Pow: '__POW__'}.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Div: '__IDIV__', ast.Pow: '__IPOW__'}.get(type(n.op))
        if f and isinstance(n.target, (ast.Name, ast.Attribute)):
            load = ast.parse(ast.unparse(n.target), mode='eval').body
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()), [load, n.value], [])), n)
        return n

    def visit_ClassDef(self, n):
        for b in n.bases:
            if 'TestCase' in ast.unparse(b):
                return None
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        if ast.unparse(n.test).replace('"', "'") in ("__name__ == '__main__'",):
            return None
        self.generic_visit(n)
        return n


SRC = {}


def source(path):
    if path not in SRC:
        with open(path) as f:
            SRC[path] = f.read()
    return SRC[path]


class Package:
    """the repository's `wiz` package, executed symbolically; overrides: {'Module.func': replacement}"""

    def __init__(self, overrides=None, extra=None):
        self.mods = {}
        self.overrides = dict(overrides or {})
        self.overrides.setdefault('elliptic.ellipticPiCarlson', S.ellipticPi)
        self.functions = set()
        self.special = S.ScipySpecial()
        self.optimize = S.ScipyOptimize()
        self.integrate = S.ScipyIntegrate()
        self.mathm = S.MathShim()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.module(n)

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, 'wiz', name + '.py')
        if not os.path.exists(path):
            path = os.path.join(REPO, 'examples', name + '.py')
        if not os.path.exists(path):
            raise ImportError('wiz.' + name)
        m = types.ModuleType('swiz.' + name)
        self.mods[name] = m
        src = source(path)
        tree = T().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        b = dict(vars(builtins))
        b['__import__'] = self._imp
        b['print'] = lambda *a, **k: None
        b['float'] = S.FloatShim
        m.__dict__.update({'__builtins__': b, '__C__': C, '__DIV__': DIV, '__POW__': POW, '__IDIV__': IDIV, '__IPOW__': IPOW, '__W__': W, '__ASTYPE__': ASTYPE,
                           '__package__': 'swiz', '__name__': 'swiz.' + name, '__file__': path})
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        for k, v in self.overrides.items():
            mod, f = k.split('.')
            if mod == name and v is not None:
                if not hasattr(m, f):
                    raise X.Unsupported('%s not found in %s' % (f, name))
                setattr(m, f, v)
        return m

    def _imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == 'wiz' or name.startswith('wiz.'):
            sub = name if level > 0 else name[4:]
            if sub:
                m = self.module(sub.split('.')[-1])
                if level > 0 or fromlist:
                    return m
            ns = types.SimpleNamespace()
            for f in fromlist or ():
                setattr(ns, f, self.module(f))
            if name.startswith('wiz.') and not fromlist:
                setattr(ns, sub, self.module(sub))
            return ns
        if name == 'numpy' or name.startswith('numpy.'):
            if fromlist and name != 'numpy':
                if name == 'numpy.linalg':
                    return S.NP.linalg
                return S.NP
            return S.NP
        if name.startswith('scipy'):
            d = {'scipy.special': self.special, 'scipy.optimize': self.optimize, 'scipy.integrate': self.integrate}
            if name in d:
                if fromlist:
                    return d[name]
                return _Root(self)
            return _Root(self)
        if name == 'math':
            return self.mathm
        if name.split('.')[0] in ('pybra', 'matplotlib', 'floris', 'pandas', 'weio'):
            raise ImportError(name)
        if name in ('elliptic', 'VortexLine', 'VortexDoublet', 'VortexCylinder', 'VortexCylinderSkewed', 'VortexRing',
                    'VortexPoint', 'Solver', 'SelfSimilar', 'WindTurbine', 'WindFarm'):
            return self.module(name)
        return builtins.__import__(name, globals, locals, fromlist, level)


class _Root:
    def __init__(self, p):
        self.special, self.optimize, self.integrate = p.special, p.optimize, p.integrate
        self.linalg = S.NP.linalg


def repo_digest():
    h = hashlib.sha256()
    for f in sorted(SRC):
        h.update(f.encode() + b'\0' + SRC[f].encode())
    return h.hexdigest()[:16]
