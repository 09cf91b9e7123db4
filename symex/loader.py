"""Load /repo/seismostats for symbolic execution.

Every module is compiled from the current source in /repo after a small,
semantics-preserving rewrite: calls of the builtins ``float``, ``int`` and
``range`` go through wrappers that let symbolic numbers pass, and each function records that
it was entered (so that the evidence can name the functions encoded).  Imports
of numpy, math (and a few others) inside those modules resolve to the shims.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get('SYMEX_REPO', '/repo')
PKG = 'seismostats'

ENTERED = set()
OVERRIDES = {}          # module name -> replacement seen by /repo code


class _StubMeta(type):
    def __getattr__(cls, n):
        if n.startswith('__'):
            raise AttributeError(n)
        c = _StubMeta(n, (), {'__stub__': True})
        setattr(cls, n, c)
        return c


class _Stub(types.ModuleType):
    """stands in for third-party packages no harness executes"""

    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []
        self.__stub__ = True

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        full = f'{self.__name__}.{n}'
        if full in sys.modules:
            return sys.modules[full]
        cls = _StubMeta(n, (), {'__stub__': True})
        setattr(self, n, cls)
        return cls


class _StubFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.roots:
            return importlib.machinery.ModuleSpec(name, self,
                                                  is_package=True)
        return None

    def create_module(self, spec):
        return _Stub(spec.name)

    def exec_module(self, module):
        pass


STUBS = ('openquake', 'cartopy', 'geopandas')


def install_stubs(keep=()):
    roots = [s for s in STUBS if s not in keep]
    sys.meta_path.insert(0, _StubFinder(roots))


class _T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in (
                'float', 'int', 'range') and (
                    len(node.args) == 1 or node.func.id == 'range') \
                and not node.keywords:
            node.func = ast.copy_location(
                ast.Name(id=f'_sx_{node.func.id}', ctx=ast.Load()),
                node.func)
        if isinstance(node.func, ast.Name) and node.func.id == 'map' and \
                node.args and isinstance(node.args[0], ast.Name) and \
                node.args[0].id in ('float', 'int'):
            node.args[0] = ast.copy_location(ast.Name(
                id=f'_sx_{node.args[0].id}', ctx=ast.Load()), node.args[0])
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = '.'.join(self.stack)
        self.stack.pop()
        call = ast.Expr(ast.Call(
            func=ast.Name(id='_sx_enter', ctx=ast.Load()),
            args=[ast.Constant(f'{self.mod}:{q}')], keywords=[]))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant) and isinstance(
                node.body[0].value.value, str):
            i = 1
        node.body.insert(i, call)
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn


def _sx_float(x=0.0):
    from .core import R, untext
    from .npshim import SA, _el
    if type(x) is R:
        return x
    if isinstance(x, str):
        r = untext(x)
        return float(x) if r is None else r
    if isinstance(x, SA):
        if x.size == 1:
            return _el(x.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python '
                        'scalars')
    return float(x)


def _sx_int(x=0, *a):
    from .core import R, trunc, untext
    if isinstance(x, str) and not a:
        r = untext(x)
        if r is not None:
            x = r
    if type(x) is R:
        t = trunc(x)
        return int(t.cval()) if t.is_const() else t
    return int(x, *a) if a else int(x)


class _Range:
    """range with symbolic bounds: one decision per element"""

    def __init__(self, start, stop, step):
        from .core import R, p_is_intpoly
        for v in (start, stop, step):
            if type(v) is R and not p_is_intpoly(v.p):
                raise TypeError("'float' object cannot be interpreted as an "
                                "integer")
        self.start, self.stop, self.step = start, stop, step
        if bool(step == 0):
            raise ValueError('range() arg 3 must not be zero')

    def __iter__(self):
        up = bool(self.step > 0)
        i = self.start
        while bool(i < self.stop) if up else bool(i > self.stop):
            yield i
            i = i + self.step

    def __len__(self):
        return sum(1 for _ in self)

    def __getitem__(self, k):
        return list(self)[k]

    def __reversed__(self):
        return iter(list(self)[::-1])


def _sx_range(*a):
    from .core import R
    if any(type(x) is R and not x.is_const() for x in a):
        s = (0, a[0], 1) if len(a) == 1 else (*a, 1)[:3]
        return _Range(*s)
    return range(*a)


def _sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level:
        return m
    if fromlist:
        return OVERRIDES.get(name, m)
    top = name.split('.')[0]
    return OVERRIDES.get(top, m)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            if not os.path.exists(f):
                return None
            spec = importlib.util.spec_from_file_location(
                name, f, loader=self, submodule_search_locations=[p])
        elif os.path.exists(p + '.py'):
            f = p + '.py'
            spec = importlib.util.spec_from_file_location(name, f,
                                                          loader=self)
        else:
            return None
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        tree = _T(module.__name__[len(PKG) + 1:] or PKG).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, f, 'exec', dont_inherit=True)
        b = dict(vars(builtins))
        b['__import__'] = _sx_import
        b['_sx_float'] = _sx_float
        b['_sx_int'] = _sx_int
        b['_sx_range'] = _sx_range
        b['_sx_enter'] = ENTERED.add
        module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)


def install():
    from . import npshim, scishim
    OVERRIDES['numpy'] = npshim.NP
    OVERRIDES['math'] = npshim.MATH
    OVERRIDES.update(scishim.overrides())
    sys.meta_path.insert(0, Finder())
