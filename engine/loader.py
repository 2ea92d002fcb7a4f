"""Loads the code under test from its current source files, with numpy/scipy replaced by the symbolic facades."""
import ast
import builtins
import importlib
import numbers
import os
import sys
import types

import numpy as np

from . import npf, spf
from .arr import SArr, to_sarr
from .sym import Sym, SymBool, PI, lift, s_exp, s_angle
from .terms import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}
ENCODED = {}          # function qualified name -> number of symbolic executions


class _Marker(ast.NodeTransformer):
    """first statement of every function: __enc__('name')"""

    def __init__(self, mod):
        self.stack = [mod]

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            top = a.asname is None
            call = ast.Call(ast.Name('__imp__', ast.Load()), [ast.Constant(a.name), ast.Constant(top)], [])
            out.append(ast.Assign([ast.Name(a.asname or a.name.split('.')[0], ast.Store())], call))
        return out

    def visit_ImportFrom(self, n):
        if n.module == '__future__':
            return n
        out = []
        for a in n.names:
            args = [ast.Constant(n.module or ''), ast.Constant(a.name), ast.Constant(n.level)]
            call = ast.Call(ast.Name('__from__', ast.Load()), args, [])
            if a.name == '*':
                out.append(ast.Expr(call))
            else:
                out.append(ast.Assign([ast.Name(a.asname or a.name, ast.Store())], call))
        return out

    def visit_Attribute(self, n):
        # symbolic columns of a frame become facade arrays where the code takes their values
        self.generic_visit(n)
        if n.attr in ('values', 'to_numpy', 'astype') and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__%s__' % n.attr, ast.Load()), [n.value], []), n)
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        call = ast.Expr(ast.Call(ast.Name('__enc__', ast.Load()), [ast.Constant('.'.join(self.stack))], []))
        pos = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], 'value', None), ast.Constant) \
            and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(pos, call)
        self.stack.pop()
        return n


def code_of(path, name):
    if path not in _code:
        with open(path) as f:
            src = f.read()
        t = ast.parse(src, path)
        t = _Marker(name).visit(t)
        ast.fix_missing_locations(t)
        _code[path] = compile(t, path, 'exec', dont_inherit=True)
    return _code[path]


# ------------------------------------------------------------------------------------------------ frames
def _frame(x):
    return type(x).__module__.startswith('pandas.') and hasattr(x, 'to_numpy')


def _symbolic(v):
    return isinstance(v, np.ndarray) and v.dtype == object and not isinstance(v, SArr) and v.size and \
        any(isinstance(e, (Sym, SymBool)) for e in v.flat) and all(isinstance(e, (Sym, SymBool, numbers.Number)) for e in v.flat)


def values_(x):
    v = x.values
    return to_sarr(v) if _frame(x) and _symbolic(v) else v


def to_numpy_(x):
    if not _frame(x):
        return x.to_numpy

    def f(dtype=None, *a, **k):
        v = x.to_numpy(None, *a, **k)
        if _symbolic(v):
            v = to_sarr(v)
            return v if dtype in (None, object) else v.astype(dtype)
        return x.to_numpy(dtype, *a, **k)
    return f


def astype_(x):
    if _frame(x):
        def f(dtype, *a, **k):
            if isinstance(dtype, dict) or not _symbolic(x.to_numpy()):
                return x.astype(dtype, *a, **k)
            v = to_sarr(x.to_numpy()).astype(dtype)
            r = x.copy()
            r[:] = np.asarray(v, dtype=object) if not isinstance(v, SArr) else v.view(np.ndarray)
            return r
        return f
    if _symbolic(x):
        return to_sarr(x).astype
    return x.astype


# ------------------------------------------------------------------------------------------------ builtins
class _FM(type):
    def __call__(cls, x=0.0):
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = x.view(np.ndarray).ravel()[0]
        if isinstance(x, SymBool):
            x = x.sym()
        if isinstance(x, Sym):
            if x.kind == 'c':
                raise TypeError("can't convert complex to float")
            return Sym(x.re, kind='f', py=True)
        return builtins.float(x)

    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.kind == 'f'
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.float)


class FloatLook(float, metaclass=_FM):
    dtype = np.dtype(np.float64)
    fromhex = float.fromhex


class _CM(type):
    def __call__(cls, x=0, y=0):
        if isinstance(x, SArr) and x.size == 1:
            x = x.view(np.ndarray).ravel()[0]
        if isinstance(x, (Sym, SymBool)) or isinstance(y, (Sym, SymBool)):
            r = lift(x) + 1j * lift(y)
            return Sym(r.re, r.im, 'c', True)
        return builtins.complex(x, y) if y != 0 else builtins.complex(x)

    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.kind == 'c'
        return isinstance(x, builtins.complex)


class ComplexLook(complex, metaclass=_CM):
    dtype = np.dtype(np.complex128)


FloatLook.__name__, ComplexLook.__name__ = 'float', 'complex'


def type_(*a, **k):
    if len(a) != 1 or k:
        return builtins.type(*a, **k)
    x = a[0]
    t = builtins.type(x)
    if t is Sym:
        if x.py:
            return {'f': FloatLook, 'c': ComplexLook, 'i': int}[x.kind]
        return {'f': np.float64, 'c': np.complex128, 'i': np.int64}[x.kind]
    if t is SymBool:
        return np.bool_
    if t is SArr:
        return np.ndarray
    if t is builtins.float:
        return FloatLook
    if t is builtins.complex:
        return ComplexLook
    from .arr import SMat
    if t is SMat:
        return np.matrix
    return t


def _flatcls(c):
    if isinstance(c, tuple):
        r = ()
        for e in c:
            r += _flatcls(e)
        return r
    return (c,)


def isinstance_(x, c):
    if builtins.isinstance(x, (Sym, SymBool)):
        import numbers
        for k in _flatcls(c):
            if builtins.isinstance(x, SymBool):
                if k in (np.bool_, np.generic, bool):
                    return True
                continue
            if k in (FloatLook, float) and x.kind == 'f' or k in (ComplexLook, complex) and x.kind == 'c':
                return True
            if k is int and x.kind == 'i' and x.py:
                return True
            if k in (numbers.Number, numbers.Complex):
                return True
            if k is numbers.Real and x.kind != 'c' or k is numbers.Integral and x.kind == 'i':
                return True
            if not x.py:
                if k in (np.number, np.generic) or k in (np.inexact,) and x.kind != 'i':
                    return True
                if k in (np.floating, np.float64) and x.kind == 'f' or k in (np.complexfloating, np.complex128) and x.kind == 'c' \
                        or k in (np.integer, np.signedinteger, np.int64, np.int_) and x.kind == 'i':
                    return True
            if k in (object, Sym):
                return True
        return False
    return builtins.isinstance(x, c)


# ------------------------------------------------------------------------------------------------ other modules
MATH = types.ModuleType('math')
import math as _math
for _n in dir(_math):
    setattr(MATH, _n, getattr(_math, _n))
MATH.pi = PI
for _n, _f in dict(sqrt='sqrt', exp='exp', log='log', cos='cos', sin='sin', tan='tan', cosh='cosh', sinh='sinh', tanh='tanh',
                   radians='deg2rad', degrees='rad2deg').items():
    setattr(MATH, _n, (lambda x, _f=_f: getattr(lift(x), _f)().item()))
MATH.floor = lambda x: lift(x).__floor__() if isinstance(x, Sym) else _math.floor(x)
MATH.ceil = lambda x: lift(x).__ceil__() if isinstance(x, Sym) else _math.ceil(x)
MATH.atan2 = lambda y, x: s_angle(Sym(lift(x).re, lift(y).re, 'c'))
MATH.hypot = lambda x, y: abs(Sym(lift(x).re, lift(y).re, 'c'))
MATH.pow = lambda x, y: lift(x) ** lift(y)
MATH.fabs = lambda x: abs(lift(x))
MATH.fsum = lambda x: sum(x, 0.)
MATH.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.: abs(lift(a) - lift(b)) <= max(rel_tol * max(abs(lift(a)), abs(lift(b))), abs_tol)
MATH.isnan = lambda x: False if isinstance(x, Sym) else _math.isnan(x)
MATH.isinf = lambda x: False if isinstance(x, Sym) else _math.isinf(x)
MATH.isfinite = lambda x: True if isinstance(x, Sym) else _math.isfinite(x)
MATH.prod = lambda x, start=1: __import__('functools').reduce(lambda a, b: a * b, x, start)
MATH.dist = lambda p, q: sum([(a - b) ** 2 for a, b in zip(p, q)]) ** 0.5
CMATH = types.ModuleType('cmath')
CMATH.exp = lambda x: s_exp(lift(x))
CMATH.pi = PI
CMATH.phase = lambda x: s_angle(lift(x))
CMATH.rect = lambda r, p: lift(r) * s_exp(lift(1j) * lift(p))
CMATH.polar = lambda x: (abs(lift(x)), s_angle(lift(x)))
CMATH.cos = lambda x: (s_exp(lift(1j) * lift(x)) + s_exp(lift(-1j) * lift(x))) / 2
CMATH.sin = lambda x: (s_exp(lift(1j) * lift(x)) - s_exp(lift(-1j) * lift(x))) / 2j
CMATH.sqrt = lambda x: lift(x).sqrt()


class Inert(types.ModuleType):
    """stands for a plotting library: accepts anything"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Inert(self.__name__ + '.' + n)

    def __call__(self, *a, **k):
        return Inert(self.__name__ + '()')

    def __iter__(self):
        return iter((Inert('a'), Inert('b')))

    def __getitem__(self, k):
        return Inert('x')


class Tqdm(object):
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def update(self, *a):
        pass

    def close(self):
        pass

    def set_description(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @staticmethod
    def write(*a, **k):
        pass


TQDM = types.ModuleType('tqdm')
TQDM.tqdm = Tqdm
TQDM.trange = lambda *a, **k: range(*a)

INERT = ('matplotlib', 'seaborn', 'proplot', 'tikzplotlib')


def _cupy():
    cp = npf.NumpyFacade('cupy')
    cp.__dict__.update({k: v for k, v in npf.NP.__dict__.items() if not k.startswith('__')})

    def arr(x, dtype=None, **k):
        r = npf.array(x, dtype)
        return r if isinstance(r, SArr) or r.dtype == object else npf.to_sarr(r)
    cp.array = cp.asarray = arr
    cp.asnumpy = lambda x: x
    cp._default_memory_pool = Inert('pool')
    cp.cuda = Inert('cuda')
    return cp


class TextFile(object):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode[0]
        self.at = 0
        if self.mode == 'w' or self.mode == 'a' and path not in npf.STORE:
            npf.STORE[path] = ''
        if not isinstance(npf.STORE.get(path), str):
            raise FileNotFoundError(2, 'No such file or directory: %r' % path)

    def write(self, s):
        if self.mode == 'r':
            raise Unsupported('not writable')
        npf.STORE[self.path] += s

    def writelines(self, ls):
        for s in ls:
            self.write(s)

    def read(self):
        r = npf.STORE[self.path][self.at:]
        self.at += len(r)
        return r

    def __iter__(self):
        return iter(self.read().splitlines(True))

    def close(self):
        pass

    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def print_(*a, **k):
    f = k.get('file')
    if isinstance(f, TextFile):
        f.write(k.get('sep', ' ').join(str(x) for x in a) + k.get('end', '\n'))


class PathLook(types.ModuleType):
    def __getattr__(self, n):
        return getattr(os.path, n)

    @staticmethod
    def isfile(p):
        return npf._fname(p) in npf.STORE or os.path.isfile(p)

    @staticmethod
    def exists(p):
        return npf._fname(p) in npf.STORE or os.path.exists(p)


class OsLook(types.ModuleType):
    """os, with the files of the store"""
    path = PathLook('os.path')

    def __getattr__(self, n):
        return getattr(os, n)


OS = OsLook('os')

BASE = {'os': OS, 'os.path': OS.path, 'numpy': npf.NP, 'scipy': spf.SCIPY, 'scipy.sparse': spf.SPARSE, 'scipy.sparse.linalg': spf.SPLINALG,
        'scipy.linalg': spf.LINALG, 'scipy.interpolate': spf.INTERP, 'scipy.stats': spf.STATS_, 'numpy.linalg': npf.NP.linalg,
        'numpy.random': npf.NP.random, 'math': MATH, 'cmath': CMATH, 'tqdm': TQDM, 'tqdm.auto': TQDM}


class Loader(object):
    def __init__(self, stubs=None, out=None):
        self.mods = {}
        self.imported = set()
        self.stubs = dict(stubs or {})
        self.out = out
        cp = _cupy()
        self.gpu = {'cupy': cp, 'cupyx.scipy.sparse': spf.SPARSE, 'cupyx.scipy.sparse.linalg': spf.SPLINALG, 'cupyx.scipy': spf.SCIPY}
        # PyPy ignores a module's own __builtins__: the overrides are module globals, imports are rewritten in the AST
        self.globals = dict(type=type_, isinstance=isinstance_, float=FloatLook, complex=ComplexLook,
                            print=print_, open=self.open_, __values__=values_, __to_numpy__=to_numpy_, __astype__=astype_, __imp__=self.imp, __enc__=enc)

    def open_(self, path, mode='r', *a, **k):
        # text files below the scratch directory live in the store of the saved arrays
        p = npf._fname(path)
        if not self.out or not p.startswith(self.out) or mode not in ('w', 'r', 'wt', 'rt', 'a'):
            raise Unsupported('open(%s)' % path)
        return TextFile(p, mode)

    def find(self, name):
        self.imported.add(name)
        if name in self.stubs:
            return self.stubs[name]
        if name in BASE:
            return BASE[name]
        if name in self.gpu:
            return self.gpu[name]
        top = name.split('.')[0]
        if top in ('src', 'conf') or os.path.isfile(os.path.join(REPO, top + '.py')):
            return self.load(name)
        if top in INERT:
            return Inert(name)
        if top in ('pandapower', 'pandas'):
            from . import ppmodel
            return ppmodel.MODULES.get(name) or importlib.import_module(name)
        if top in ('scipy', 'numpy', 'cupy', 'cupyx'):
            return None
        return importlib.import_module(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            path, pkg = os.path.join(p, '__init__.py'), True
        else:
            path, pkg = p + '.py', False
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [p]
        m.__dict__.update(self.globals)
        m.__dict__['__from__'] = lambda mod, attr, level: self.from_(m, mod, attr, level)
        parent, _, leaf = name.rpartition('.')
        if parent:
            par = self.load(parent)
        self.mods[name] = m
        if os.path.isfile(path):
            try:
                exec(code_of(path, name), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        elif not pkg:
            self.mods.pop(name, None)
            raise ImportError('No module named %r' % name)
        if parent:
            setattr(par, leaf, m)
        if name == 'conf.conf' and self.out:
            set_dirs(m, self.out)
        return m

    def imp(self, name, top):
        m = self.find(name)
        if top and '.' in name:
            m = self.find(name.split('.')[0])
        if m is None:
            raise Unsupported('import ' + name)
        return m

    def from_(self, into, name, attr, level):
        if level:
            pkg = into.__package__
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        m = self.find(name)
        if m is None:
            raise Unsupported('import ' + name)
        if attr == '*':
            for k in getattr(m, '__all__', [k for k in m.__dict__ if not k.startswith('_')]):
                into.__dict__[k] = getattr(m, k)
            return
        if getattr(m, '__path__', None) and attr not in m.__dict__ and m.__name__ in self.mods:
            try:
                return self.load(name + '.' + attr)
            except ImportError:
                pass
        try:
            return getattr(m, attr)
        except AttributeError:
            raise ImportError('cannot import name %r from %r' % (attr, name))


def set_dirs(m, out):
    from pathlib import Path
    for n in ('DATA_DIR', 'SIM_DIR', 'TEST_SIM_DIR'):
        if hasattr(m, n):
            setattr(m, n, Path(out) / {'DATA_DIR': '', 'SIM_DIR': 'sim', 'TEST_SIM_DIR': 'testsim'}[n])


def enc(name):
    ENCODED[name] = ENCODED.get(name, 0) + 1
