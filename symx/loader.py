"""Load the code under test from source, with symbolic stand-ins.

Every run parses the current files in /repo.  The only rewriting is at call
sites of built-ins that force native numbers (``float(x)``, ``int(x)``,
``'%f' % x``, ``open``) and a marker at the start of every function which
records that the function has been executed symbolically.
"""

import ast
import builtins
import math
import os
import sys
import types
import warnings

import numpy as np

from symx import arr, core, fileio
from symx.core import Sym, SymBool, Unsupported

REPO = os.environ.get('ELPHMOD_REPO', '/repo')

COVERED = {}      # 'module.function' -> number of symbolic executions

def covered():
    return sorted(COVERED)

# ---------------------------------------------------------------------------
# built-ins

def b_float(x=0.0):
    if isinstance(x, Sym):
        return core.real(x)
    if isinstance(x, str):
        r = fileio.parse(x)
        return float(x) if r is None else r
    if isinstance(x, arr.SymArray):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return b_float(x.view(np.ndarray).reshape(-1)[0])
    return float(x)

def b_int(x=0, *args):
    if isinstance(x, Sym):
        return core.trunc(core.real(x))
    if isinstance(x, str) and not args:
        r = fileio.parse_int(x)
        return int(x) if r is None else r
    if isinstance(x, arr.SymArray) and x.size == 1:
        return b_int(x.view(np.ndarray).reshape(-1)[0])
    return int(x, *args)

def b_complex(*xs):
    if len(xs) == 2:
        return b_float(xs[0]) + 1j * b_float(xs[1])
    x, = xs
    if isinstance(x, Sym):
        return x
    return complex(x)

def b_mod(a, b):
    if isinstance(a, str):
        return fileio.percent(a, b)
    return a % b

def b_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        if float in ts or (int in ts and core.is_int(x)):
            return True
    return isinstance(x, t)

def b_open(*args, **kwargs):
    mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
    if 'b' not in mode:
        kwargs.setdefault('encoding', 'utf-8')
    return fileio.sandbox_open(*args, **kwargs)

def b_dot(x, *args):
    if isinstance(x, np.ndarray) and len(args) == 1 and (
            arr.is_sym(x) and x.dtype == object
            or arr.has_obj(args[0]) or x.dtype == object):
        return arr.dot(x, args[0])
    return arr.wrap(x.dot(*args)) if isinstance(x, np.ndarray) \
        else x.dot(*args)

def b_enter(name):
    COVERED[name] = COVERED.get(name, 0) + 1

HELPERS = {'symx_float': b_float, 'symx_int': b_int, 'symx_complex': b_complex,
    'symx_mod': b_mod, 'symx_isinstance': b_isinstance, 'symx_open': b_open,
    'symx_enter': b_enter,
    'symx_dot': b_dot}

RENAME = {'float': 'symx_float', 'int': 'symx_int', 'complex': 'symx_complex',
    'isinstance': 'symx_isinstance', 'open': 'symx_open'}

class Rewrite(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in RENAME:
            node.func.id = RENAME[node.func.id]
        elif isinstance(node.func, ast.Attribute) and node.func.attr == 'dot' \
                and not (isinstance(node.func.value, ast.Name)
                    and node.func.value.id == 'np') and not node.keywords:
            return ast.copy_location(ast.Call(ast.Name('symx_dot',
                ast.Load()), [node.func.value] + node.args, []), node)
        elif isinstance(node.func, ast.Name) and node.func.id == 'map':
            for x in node.args[:1]:
                if isinstance(x, ast.Name) and x.id in RENAME:
                    x.id = RENAME[x.id]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            if isinstance(node.left, ast.Constant) and not isinstance(
                    node.left.value, str):
                return node
            return ast.copy_location(ast.Call(ast.Name('symx_mod', ast.Load()),
                [node.left, node.right], []), node)
        return node

    def _function(self, node):
        self.scope.append(node.name)
        name = '.'.join([self.module] + self.scope)
        self.generic_visit(node)
        mark = ast.Expr(ast.Call(ast.Name('symx_enter', ast.Load()),
            [ast.Constant(name)], []))
        k = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant):
            k = 1
        while k < len(node.body) and isinstance(node.body[k],
                (ast.Global, ast.Nonlocal)):
            k += 1
        node.body.insert(k, mark)
        self.scope.pop()
        return node

    visit_FunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_Global(self, node):
        return node

_CODE = {}

def compile_file(path, module):
    key = (path, os.stat(path).st_mtime_ns)
    if key not in _CODE:
        with open(path, encoding='utf-8') as f:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(f.read(), path)
        tree = Rewrite(module).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, 'exec')
    return _CODE[key]

# ---------------------------------------------------------------------------
# stand-ins for SciPy

def _erf(x):
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        return arr.finish(arr.elementwise(core.erf, x))
    return core.erf(x)

def make_scipy():
    import scipy
    from symx import sparse
    s = types.ModuleType('scipy')
    sp = types.ModuleType('scipy.special')
    sp.erf = _erf
    sps = types.ModuleType('scipy.sparse')
    for n in ('dok_array', 'dok_matrix', 'csr_array', 'coo_array',
            'lil_array'):
        setattr(sps, n, sparse.SymSparse)
    s.special = sp
    s.sparse = sps
    s.__version__ = scipy.__version__
    return {'scipy': s, 'scipy.special': sp, 'scipy.sparse': sps}

class Loader:
    """One instance of the package (one MPI process)."""

    def __init__(self, mpi=None, repo=None):
        self.repo = repo or REPO
        self.mpi = mpi
        self.modules = {}
        self.np = NUMPY
        self.scipy = make_scipy()
        self.builtins = dict(vars(builtins))
        self.builtins.update(HELPERS)
        self.builtins['__import__'] = self.imp
        self.builtins['print'] = self.print

    def print(self, *args, **kwargs):
        if kwargs.get('file') is None:
            return
        builtins.print(*args, **kwargs)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            if level > 1:
                pkg = pkg[:-(level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'elphmod':
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.find(name + '.' + f):
                        self.get(name + '.' + f)
                return m
            return m if level else self.get(top)
        if top == 'numpy':
            m = self.np
            if fromlist:
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            return m
        if top == 'mpi4py':
            if self.mpi is None:
                raise ImportError('serial')
            m = types.ModuleType('mpi4py')
            m.MPI = self.mpi
            return m
        if top == 'scipy':
            if name not in self.scipy:
                raise ImportError(name)
            return self.scipy[name if fromlist else 'scipy']
        if top == 'sys':
            return self.sys()
        if top == 'pickle':
            from symx import fileio
            return fileio.PICKLE
        if top == 'os' and name == 'os':
            return os
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def sys(self):
        m = types.ModuleType('sys')
        m.exit = _exit
        m.stdout = _Null()
        m.stderr = _Null()
        m.version_info = sys.version_info
        m.argv = ['x']
        m.stdin = sys.stdin
        m.modules = {}
        m.maxsize = sys.maxsize
        m.float_info = sys.float_info
        return m

    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.isfile(p + '.py'):
            return p + '.py'

    def get(self, name):
        if name in self.modules:
            return self.modules[name]
        parent, _, last = name.rpartition('.')
        if parent:
            self.get(parent)
            if name in self.modules:
                return self.modules[name]
        path = self.find(name)
        if path is None:
            raise ImportError('No module named %s' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        if path.endswith('__init__.py'):
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        if parent:
            setattr(self.modules[parent], last, m)
        short = name[len('elphmod.'):] if name != 'elphmod' else name
        code = compile_file(path, short)
        exec(code, m.__dict__)
        return m

class _Null:
    def write(self, *a):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False

class Exit(Exception):
    """sys.exit() of the code under test."""

def _exit(*args):
    raise Exit(*args)

NUMPY = arr.NumPyProxy()
