"""Symbolic scalars: complex numbers over exact real terms, and symbolic Booleans."""
from fractions import Fraction
import numbers

import numpy as np

from . import terms as tm
from . import explore
from .terms import const, Unsupported, ZERO, ONE


def is_num(x):
    return isinstance(x, (int, float, complex, bool, Fraction, np.number, np.bool_))


class SymBool(object):
    __slots__ = ('b',)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_(ufunc, method, inputs, kw)

    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(bool)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return explore.cur().decide(self.b) if self.b.op not in ('true', 'false') else self.b is tm.TRUE

    def __invert__(self):
        return SymBool(tm.bnot(self.b))

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.b
        if isinstance(o, (bool, np.bool_)):
            return tm.bconst(bool(o))
        return None

    def __and__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(tm.band(self.b, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(tm.bor(self.b, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(tm.bxor(self.b, b))
    __rxor__ = __xor__

    def sym(self):
        return Sym(tm.ITE(self.b, ONE, ZERO), ZERO, 'i')

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return mkbool(tm.band(self.b, o.b))
        return self.sym() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self.sym() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.sym() - o

    def __rsub__(self, o):
        return o - self.sym()

    def __eq__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return mkbool(tm.bnot(tm.bxor(self.b, b)))

    def __ne__(self, o):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return mkbool(tm.bxor(self.b, b))

    def __hash__(self):
        return self.b.id

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __repr__(self):
        return 'SymBool(%r)' % self.b


def mkbool(b):
    """native bool when decided by constant folding"""
    if b is tm.TRUE:
        return np.True_
    if b is tm.FALSE:
        return np.False_
    return SymBool(b)


def tobool(x):
    """B term of a bool-like value"""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, Sym):
        return tm.bnot(tm.band(tm.cmp('==', x.re), tm.cmp('==', x.im)))
    return tm.bconst(bool(x))


_KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def kmax(a, b):
    return a if _KORD[a] >= _KORD[b] else b


class Sym(object):
    """A symbolic number. kind: 'i' int, 'f' float, 'c' complex; py: behaves as a Python builtin number"""
    __slots__ = ('re', 'im', 'kind', 'py')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_(ufunc, method, inputs, kw)

    __array_priority__ = 1000

    def __init__(self, re, im=ZERO, kind='f', py=False):
        self.re = re
        self.im = im
        self.kind = kind
        self.py = py

    # ------------------------------------------------------------------ numpy-scalar look
    def _np(self):
        if self.py:
            raise AttributeError('builtin number has no such attribute')

    @property
    def ndim(self):
        self._np()
        return 0

    @property
    def shape(self):
        self._np()
        return ()

    @property
    def size(self):
        self._np()
        return 1

    @property
    def dtype(self):
        self._np()
        return np.dtype({'i': np.int64, 'f': np.float64, 'c': np.complex128}[self.kind])

    @property
    def T(self):
        self._np()
        return self

    @property
    def real(self):
        return Sym(self.re, ZERO, 'f' if self.kind == 'c' else self.kind, self.py)

    @property
    def imag(self):
        return Sym(self.im, ZERO, 'f' if self.kind == 'c' else self.kind, self.py)

    def conjugate(self):
        return Sym(self.re, tm.neg(self.im), self.kind, self.py)

    def conj(self):
        self._np()
        return self.conjugate()

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return Sym(self.re, self.im, self.kind, True)

    def tolist(self):
        return self.item()

    def squeeze(self, *a, **k):
        return self

    def get(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = sum

    def max(self, *a, **k):
        return self
    min = max

    def all(self, *a, **k):
        return mkbool(tobool(self))
    any = all

    def astype(self, dt, *a, **k):
        from .arr import cast_elem, kind_of_dtype
        return cast_elem(self, kind_of_dtype(dt))

    def flatten(self, *a):
        from .arr import to_sarr
        return to_sarr([self])
    ravel = flatten

    def reshape(self, *a):
        return self.flatten().reshape(*a)

    def dot(self, o):
        return self * o

    def round(self, *a, **k):
        return self.__round__()

    @property
    def is_const(self):
        return self.re.op == 'c' and self.im.op == 'c'

    def const_value(self):
        if not self.is_const:
            raise Unsupported('a concrete value is needed, got %r' % self)
        if self.kind == 'i':
            return int(self.re.args)
        if self.kind == 'c':
            return complex(float(self.re.args), float(self.im.args))
        return float(self.re.args)

    # ------------------------------------------------------------------ arithmetic
    def _coerce(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return o.sym()
        if is_num(o):
            return lift(o)
        return None

    def _arr(self, o):
        return isinstance(o, np.ndarray)

    def _bin(self, o, f, name, rev=False):
        if self._arr(o):
            from . import arr
            u = getattr(np, name)
            return arr.ufunc_(u, '__call__', (o, self) if rev else (self, o), {})
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return f(c, self) if rev else f(self, c)

    def __add__(self, o):
        return self._bin(o, s_add, 'add')

    def __radd__(self, o):
        return self._bin(o, s_add, 'add', True)

    def __sub__(self, o):
        return self._bin(o, s_sub, 'subtract')

    def __rsub__(self, o):
        return self._bin(o, s_sub, 'subtract', True)

    def __mul__(self, o):
        return self._bin(o, s_mul, 'multiply')

    def __rmul__(self, o):
        return self._bin(o, s_mul, 'multiply', True)

    def __truediv__(self, o):
        return self._bin(o, s_div, 'true_divide')

    def __rtruediv__(self, o):
        return self._bin(o, s_div, 'true_divide', True)

    def __pow__(self, o):
        return self._bin(o, s_pow, 'power')

    def __rpow__(self, o):
        return self._bin(o, s_pow, 'power', True)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv, 'floor_divide')

    def __rfloordiv__(self, o):
        return self._bin(o, s_floordiv, 'floor_divide', True)

    def __mod__(self, o):
        return self._bin(o, s_mod, 'remainder')

    def __rmod__(self, o):
        return self._bin(o, s_mod, 'remainder', True)

    def __neg__(self):
        return Sym(tm.neg(self.re), tm.neg(self.im), self.kind, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy calls these methods on the elements of object arrays
    def exp(self):
        return s_exp(self)

    def sqrt(self):
        return s_sqrt(self)

    def log(self):
        return s_log(self)

    def log10(self):
        return s_log(self) / s_log(lift(10.0))

    def cos(self):
        return real_fn(self, lambda t: tm.cossin(t)[0])

    def sin(self):
        return real_fn(self, lambda t: tm.cossin(t)[1])

    def tan(self):
        return self.sin() / self.cos()

    def cosh(self):
        return (s_exp(self) + s_exp(-self)) / 2

    def sinh(self):
        return (s_exp(self) - s_exp(-self)) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def deg2rad(self):
        return self * PI / 180
    radians = deg2rad

    def rad2deg(self):
        return self * 180 / PI
    degrees = rad2deg

    def angle(self):
        return s_angle(self)

    def floor(self):
        return real_fn(self, tm.floor)

    def ceil(self):
        return real_fn(self, lambda t: tm.neg(tm.floor(tm.neg(t))))

    def rint(self):
        return real_fn(self, round_term)

    def trunc(self):
        return real_fn(self, lambda t: tm.ITE(tm.cmp('<', t), tm.neg(tm.floor(tm.neg(t))), tm.floor(t)))

    def __floor__(self):
        return self.floor().asint()

    def __ceil__(self):
        return self.ceil().asint()

    def __trunc__(self):
        return self.trunc().asint()

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported('rounding to decimals')
        r = self.rint()
        return r.asint() if n is None else r

    def asint(self):
        return Sym(self.re, ZERO, 'i', True)

    def expm1(self):
        return s_exp(self) - 1

    def log1p(self):
        return s_log(self + 1)

    def sign(self):
        t = self.re
        return Sym(tm.ITE(tm.cmp('<', t), const(-1), tm.ITE(tm.cmp('==', t), ZERO, ONE)), ZERO, self.kind)

    # ------------------------------------------------------------------ comparisons
    def _cmp(self, o, f, name, rev=False):
        if self._arr(o):
            from . import arr
            return arr.ufunc_(getattr(np, name), '__call__', (self, o), {})
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return f(self, c)

    def __eq__(self, o):
        return self._cmp(o, s_eq, 'equal')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: b_not(s_eq(a, b)), 'not_equal')

    def __lt__(self, o):
        return self._cmp(o, s_lt, 'less')

    def __le__(self, o):
        return self._cmp(o, s_le, 'less_equal')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: s_lt(b, a), 'greater')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: s_le(b, a), 'greater_equal')

    def __hash__(self):
        if self.re.op == 'c' and self.im is ZERO:
            return hash(self.re.args)
        return hash((self.re.id, self.im.id))

    def __bool__(self):
        return bool(mkbool(tobool(self)))

    def __index__(self):
        if self.kind != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return explore.cur().concretize_int(self.re)

    def __int__(self):
        if self.kind == 'i':
            return explore.cur().concretize_int(self.re)
        return explore.cur().concretize_int(self.trunc().re)

    def __float__(self):
        if self.kind == 'c':
            raise TypeError("can't convert complex to float")
        if self.re.op == 'c':
            return float(self.re.args)
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        if self.is_const:
            return complex(float(self.re.args), float(self.im.args))
        raise Unsupported('complex() of a symbolic value')

    def __repr__(self):
        if self.kind == 'c':
            return 'Sym(%r + %r j)' % (self.re, self.im)
        return 'Sym(%r)' % (self.re,)

    def __format__(self, spec):
        return repr(self)

    def __str__(self):
        return repr(self)


def lift(x, kind=None):
    """Number -> Sym"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x.sym()
    if isinstance(x, (bool, np.bool_)):
        return Sym(const(int(x)), ZERO, 'i')
    if isinstance(x, (int, np.integer)):
        return Sym(const(Fraction(int(x))), ZERO, 'i', isinstance(x, int))
    if isinstance(x, (float, np.floating)):
        py = isinstance(x, float) and not isinstance(x, np.floating)
        if isinstance(x, np.float32):
            x = float(str(x))
        f = float(x)
        if f != f:
            return Sym(tm.fn('free', const(-1)), ZERO, 'f', py)     # NaN: an unconstrained value
        return Sym(const(tm.frac(f)), ZERO, 'f', py)
    if isinstance(x, (complex, np.complexfloating)):
        c = complex(x)
        return Sym(const(tm.frac(c.real)), const(tm.frac(c.imag)), 'c', isinstance(x, complex) and not isinstance(x, np.complexfloating))
    if isinstance(x, Fraction):
        return Sym(const(x), ZERO, 'f', True)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if x is None:
        raise TypeError('None is not a number')
    raise Unsupported('cannot lift %r' % (type(x),))


def _rk(a, b):
    return kmax(a.kind, b.kind)


def s_add(a, b):
    return Sym(tm.add(a.re, b.re), tm.add(a.im, b.im), _rk(a, b), a.py and b.py)


def s_sub(a, b):
    return Sym(tm.sub(a.re, b.re), tm.sub(a.im, b.im), _rk(a, b), a.py and b.py)


def s_mul(a, b):
    k, py = _rk(a, b), a.py and b.py
    if a.im is ZERO and b.im is ZERO:
        return Sym(tm.mul(a.re, b.re), ZERO, k, py)
    if a.im is ZERO:
        return Sym(tm.mul(a.re, b.re), tm.mul(a.re, b.im), k, py)
    if b.im is ZERO:
        return Sym(tm.mul(a.re, b.re), tm.mul(a.im, b.re), k, py)
    return Sym(tm.sub(tm.mul(a.re, b.re), tm.mul(a.im, b.im)), tm.add(tm.mul(a.re, b.im), tm.mul(a.im, b.re)), k, py)


DIVS = []     # denominators met (for the record)


def s_div(a, b):
    k, py = kmax(_rk(a, b), 'f'), a.py and b.py
    if b.im is ZERO:
        if b.re is ZERO:
            if py:
                raise ZeroDivisionError('float division by zero')
            # numpy: inf/nan; an unconstrained value
            return Sym(tm.fn('free', const(-2), a.re, a.im), ZERO, k, py)
        return Sym(tm.div(a.re, b.re), tm.div(a.im, b.re), k, py)
    n = tm.add(tm.mul(b.re, b.re), tm.mul(b.im, b.im))
    num = s_mul(a, b.conjugate())
    return Sym(tm.div(num.re, n), tm.div(num.im, n), 'c', py)


def s_pow(a, b):
    k, py = _rk(a, b), a.py and b.py
    if b.is_const and b.im is ZERO and b.re.args.denominator == 1:
        n = int(b.re.args)
        if a.im is ZERO:
            if a.re is ZERO and n < 0:
                return Sym(tm.fn('free', const(-2), a.re, a.im), ZERO, k, py)
            return Sym(tm.ipow(a.re, n), ZERO, 'f' if n < 0 and k == 'i' and py else k, py)
        r = Sym(ONE, ZERO, 'c', py)
        for _ in range(abs(n)):
            r = s_mul(r, a)
        return s_div(Sym(ONE, ZERO, 'c', py), r) if n < 0 else r
    if a.im is ZERO and b.im is ZERO:
        return Sym(tm.powr(a.re, b.re), ZERO, kmax(k, 'f'), py)
    if b.is_const and b.im is ZERO and b.re.args == Fraction(1, 2):
        return s_sqrt(a)
    raise Unsupported('complex power')


def s_floordiv(a, b):
    q = s_div(a, b)
    return Sym(tm.floor(q.re), ZERO, _rk(a, b), a.py and b.py)


def s_mod(a, b):
    q = s_floordiv(a, b)
    r = s_sub(a, s_mul(q, b))
    r.kind = _rk(a, b)
    return r


def s_abs(a):
    if a.im is ZERO:
        return Sym(tm.absr(a.re), ZERO, 'f' if a.kind == 'c' else a.kind, a.py)
    if a.re is ZERO:
        return Sym(tm.absr(a.im), ZERO, 'f', a.py)
    return Sym(tm.sqrt(tm.add(tm.mul(a.re, a.re), tm.mul(a.im, a.im))), ZERO, 'f', a.py)


def s_angle(a):
    if a.is_const and a.im is ZERO:
        return Sym(ZERO if a.re.args >= 0 else tm.PI, ZERO, 'f')
    return Sym(tm.fn('arg', a.re, a.im), ZERO, 'f')


def s_exp(a):
    e = tm.exp(a.re)
    if a.im is ZERO:
        return Sym(e, ZERO, 'c' if a.kind == 'c' else 'f', a.py)
    c, s = tm.cossin(a.im)
    return Sym(tm.mul(e, c), tm.mul(e, s), 'c', a.py)


def s_log(a):
    if a.im is not ZERO:
        raise Unsupported('complex log')
    return Sym(tm.log(a.re), ZERO, 'f', a.py)


def s_sqrt(a):
    if a.im is not ZERO:
        r = s_abs(a).re
        h = Fraction(1, 2)
        re = tm.sqrt(tm.scale(tm.add(r, a.re), h))
        im = tm.sqrt(tm.scale(tm.sub(r, a.re), h))
        return Sym(re, tm.ITE(tm.cmp('<', a.im), tm.neg(im), im), 'c')
    return Sym(tm.sqrt(a.re), ZERO, 'c' if a.kind == 'c' else 'f', a.py)


def real_fn(a, f):
    if a.im is not ZERO:
        raise Unsupported('transcendental function of a complex argument')
    return Sym(f(a.re), ZERO, 'c' if a.kind == 'c' else 'f', a.py)


def round_term(t):
    """round half to even"""
    if t.op == 'c':
        return const(Fraction(round(t.args)))
    half = const(Fraction(1, 2))
    f = tm.floor(tm.add(t, half))
    # tie and odd -> one less
    tie = tm.cmp('==', tm.sub(tm.sub(f, t), half))
    hf = tm.floor(tm.scale(f, Fraction(1, 2)))
    even = tm.cmp('==', tm.sub(f, tm.scale(hf, Fraction(2))))
    return tm.ITE(tm.band(tie, tm.bnot(even)), tm.sub(f, ONE), f)


def s_eq(a, b):
    return mkbool(tm.band(tm.cmp('==', tm.sub(a.re, b.re)), tm.cmp('==', tm.sub(a.im, b.im))))


def b_not(x):
    return mkbool(tm.bnot(tobool(x)))


def s_lt(a, b):
    if a.im is not ZERO or b.im is not ZERO:
        raise Unsupported('ordering of complex numbers')
    return mkbool(tm.cmp('<', tm.sub(a.re, b.re)))


def s_le(a, b):
    if a.im is not ZERO or b.im is not ZERO:
        raise Unsupported('ordering of complex numbers')
    return mkbool(tm.cmp('<=', tm.sub(a.re, b.re)))


PI = Sym(tm.PI, ZERO, 'f', True)


def s_where(c, a, b):
    cb = tobool(c)
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(tm.bor(tm.band(cb, tobool(a)), tm.band(tm.bnot(cb), tobool(b))))
    a, b = lift(a), lift(b)
    return Sym(tm.ITE(cb, a.re, b.re), tm.ITE(cb, a.im, b.im), _rk(a, b))


def s_max(a, b):
    a, b = lift(a), lift(b)
    return s_where(s_lt(a, b), b, a)


def s_min(a, b):
    a, b = lift(a), lift(b)
    return s_where(s_lt(b, a), b, a)
