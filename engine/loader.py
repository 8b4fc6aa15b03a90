"""Loads /repo/doatools a second time, for symbolic execution.

The source text is read from the repository on every run, its AST is changed
only where Python would hash values (dict/set displays), and the modules run
with numpy & co. replaced by the engine's facades.  The untouched package is
loaded as usual under its own name and is the oracle every counterexample is
replayed on.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import ring, path
from .ring import Sym, InfSym, Unsupported, to_sym
from .path import SymBool

REPO = os.environ.get('VERIF_REPO', '/repo')
SYM = 'symdoa'


class FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return ring.is_real(x)
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class ComplexMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return not ring.is_real(x)
        return isinstance(x, complex)

    def __subclasscheck__(cls, c):
        return issubclass(c, complex)


class SymFloat(float, metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.reshape(-1)[0]
        if isinstance(x, Sym):
            if not ring.is_real(x):
                raise TypeError("can't convert complex to float")
            return x
        if isinstance(x, SymBool):
            return to_sym(x)
        return to_sym(float(x))


class SymComplex(complex, metaclass=ComplexMeta):
    def __new__(cls, re=0.0, im=None):
        r = to_sym(re)
        if im is not None:
            r = r + to_sym(im) * ring.J
        return r


def sym_isinstance(x, cls):
    if isinstance(x, (Sym, SymBool)):
        cs = []

        def flat(c):
            if isinstance(c, tuple):
                for y in c:
                    flat(y)
            else:
                cs.append(c)
        flat(cls)
        import numbers
        import numpy as np
        for c in cs:
            if isinstance(x, SymBool):
                if c in (bool, np.bool_, int):
                    return True
                continue
            integral = all(isinstance(k[0], int) and k[1] == 0 for k in x.t.values()) and all(
                ring.T.atoms[a].isint for m in x.t for a, e in m)
            if c in (int, np.integer, numbers.Integral, np.int64):
                if integral:
                    return True
            elif c in (float, SymFloat, np.floating, np.float64, numbers.Real):
                if ring.is_real(x):
                    return True
            elif c in (complex, SymComplex, np.complexfloating, np.complex128):
                if not ring.is_real(x):
                    return True
            elif c in (numbers.Number, numbers.Complex, np.number, np.generic):
                return True
            elif c is object or builtins.isinstance(x, c):
                return True
        return False
    from . import stubs
    if isinstance(x, cls):
        return True
    for c in (cls if isinstance(cls, tuple) else (cls,)):
        if c is stubs.SymDict and isinstance(x, dict):
            return True
        if c is stubs.SymSet and isinstance(x, (set, frozenset)):
            return True
    return False


def sym_hash(x):
    if isinstance(x, Sym):
        return hash(x)
    return hash(x)


class Rewriter(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        if n.keys and all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        pairs = ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())
        return ast.copy_location(ast.Call(ast.Name('__symdict__', ast.Load()), [pairs], []), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return ast.copy_location(ast.Call(ast.Name('__symdict__', ast.Load()), [g], []), n)

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('__symset__', ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        g = ast.GeneratorExp(n.elt, n.generators)
        return ast.copy_location(ast.Call(ast.Name('__symset__', ast.Load()), [g], []), n)


def make_builtins(modules):
    from . import stubs
    b = types.ModuleType('builtins')
    b.__dict__.update(builtins.__dict__)
    orig = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == 'doatools' or name.startswith('doatools.'):
                name = SYM + name[len('doatools'):]
                return orig(name, globals, locals, fromlist, level)
            if name in modules:
                m = modules[name]
                if fromlist:
                    return m
                top = name.split('.')[0]
                return modules.get(top, m)
            top = name.split('.')[0]
            if top in ('numpy', 'scipy', 'cvxpy', 'matplotlib', 'mpl_toolkits'):
                return stubs.Mod(name, {})
        return orig(name, globals, locals, fromlist, level)
    b.__import__ = imp
    b.isinstance = sym_isinstance
    b.float = SymFloat
    b.complex = SymComplex
    b.dict = stubs.SymDict
    b.set = stubs.SymSet
    b.frozenset = stubs.SymSet
    b.__symdict__ = stubs.SymDict
    b.__symset__ = stubs.SymSet
    return b.__dict__


class Loader(importlib.abc.Loader):
    def __init__(self, fn, bi, reg):
        self.fn, self.bi, self.reg = fn, bi, reg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.fn, encoding='utf-8') as f:
            src = f.read()
        tree = Rewriter().visit(ast.parse(src, self.fn))
        ast.fix_missing_locations(tree)
        code = compile(tree, '<sym>' + self.fn, 'exec')
        module.__dict__['__builtins__'] = self.bi
        self.reg.append(self.fn)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        from . import stubs
        self.modules = stubs.build_modules()
        self.bi = make_builtins(self.modules)
        self.files = []

    def find_spec(self, name, path=None, target=None):
        if name != SYM and not name.startswith(SYM + '.'):
            return None
        rel = ['doatools'] + name.split('.')[1:]
        p = os.path.join(REPO, *rel)
        if os.path.isdir(p):
            fn = os.path.join(p, '__init__.py')
            pk = True
        else:
            fn, pk = p + '.py', False
        if not os.path.exists(fn):
            return None
        return importlib.util.spec_from_loader(name, Loader(fn, self.bi, self.files), origin=fn, is_package=pk)


FINDER = None


def install():
    global FINDER
    if FINDER is None:
        sys.dont_write_bytecode = True
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        FINDER = Finder()
        sys.meta_path.insert(0, FINDER)


def real(mod):
    install()
    m = importlib.import_module('doatools.' + mod if mod else 'doatools')
    fn = os.path.realpath(m.__file__)
    assert fn.startswith(os.path.realpath(REPO) + os.sep), fn
    return m


def sym(mod):
    install()
    return importlib.import_module(SYM + '.' + mod if mod else SYM)
