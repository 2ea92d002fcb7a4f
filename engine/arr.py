"""Symbolic arrays: an ndarray subclass with object storage that behaves as a float/complex/bool/int array."""
from fractions import Fraction
import warnings

import numpy as np

from . import terms as tm
from .terms import Unsupported, ZERO, ONE, const
from .sym import (Sym, SymBool, lift, mkbool, tobool, kmax, is_num, s_eq, s_lt, s_le, s_abs, s_angle, s_where,
                  s_max, s_min, b_not)

DT = {'f': np.dtype(np.float64), 'c': np.dtype(np.complex128), 'b': np.dtype(bool), 'i': np.dtype(np.int64)}
OBJ = np.dtype(object)


def kind_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, str) and dt in ('float', 'complex', 'int', 'bool'):
        dt = {'float': float, 'complex': complex, 'int': int, 'bool': bool}[dt]
    if dt is object:
        return 'O'
    d = np.dtype(dt)
    if d.kind == 'O':
        return 'O'
    if d.kind in 'iu':
        return 'i'
    if d.kind in 'fcb':
        return d.kind
    raise Unsupported('dtype %r' % (d,))


def cast_elem(x, k):
    if k == 'b':
        return x if isinstance(x, (SymBool, np.bool_)) else mkbool(tobool(x))
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        x = lift(x)
    s = lift(x)
    if k == 'c':
        return Sym(s.re, s.im, 'c')
    if k == 'f':
        return Sym(s.re, ZERO, 'f')
    if k == 'i':
        if s.kind == 'i':
            return Sym(s.re, ZERO, 'i')
        t = s.re
        return Sym(tm.ITE(tm.cmp('<', t), tm.neg(tm.floor(tm.neg(t))), tm.floor(t)), ZERO, 'i')
    if k == 'O' or k is None:
        return s
    raise Unsupported('cast to %r' % k)


def has_sym(x, depth=6):
    if isinstance(x, (Sym, SymBool, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ and any(isinstance(e, (Sym, SymBool)) for e in x.ravel())
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(e, depth - 1) for e in x)
    return False


class SArr(np.ndarray):
    _k = 'f'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._k = getattr(obj, '_k', 'f')

    # ------------------------------------------------------------------ look
    @property
    def dtype(self):
        return DT[self._k]

    @property
    def itemsize(self):
        return DT[self._k].itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def real(self):
        if self._k != 'c':
            return self
        return emap(lambda e: e.real, self, 'f')

    @real.setter
    def real(self, v):
        if self._k != 'c':
            self[...] = v
        else:
            o = self.base_view()
            v = np.broadcast_to(raw(to_sarr(v)), o.shape)
            for i in np.ndindex(*o.shape):
                o[i] = Sym(v[i].re, o[i].im, 'c')

    @property
    def imag(self):
        if self._k != 'c':
            return zeros_like_(self, 'f')
        return emap(lambda e: e.imag, self, 'f')

    @imag.setter
    def imag(self, v):
        o = self.base_view()
        v = np.broadcast_to(raw(to_sarr(v)), o.shape)
        for i in np.ndindex(*o.shape):
            o[i] = Sym(o[i].re, v[i].re, 'c')

    def base_view(self):
        return self.view(np.ndarray)

    def get(self):
        return self

    # ------------------------------------------------------------------ element access
    def __getitem__(self, key):
        g = gather(self, key)
        if g is not None:
            return g
        key = conv_key(key)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, SArr) and r.ndim == 0 and not isinstance(key, tuple) and key is not Ellipsis:
            return r
        return r

    def __setitem__(self, key, value):
        key = conv_key(key)
        if isinstance(key, SArr) and key._k == 'b':
            raise Unsupported('internal: symbolic mask')
        k = self._k
        if type(value).__name__ == 'Series' and hasattr(value, 'values'):
            value = np.asarray(value.values)
            if value.shape == (1,) and not isinstance(np.ndarray.__getitem__(self.view(np.ndarray), key), np.ndarray):
                value = value[0]
        if isinstance(value, np.ndarray) and not isinstance(value, SArr):
            value = to_sarr(value)
        if isinstance(value, SArr):
            v = value.view(np.ndarray)
            if value._k != k:
                v = raw(value.astype(k if k != 'b' else bool))
        elif isinstance(value, (Sym, SymBool)) or is_num(value):
            if k in 'fi' and not isinstance(value, SymBool):
                s = lift(value)
                if s.kind == 'c':
                    raise TypeError("can't convert complex to float")
            v = cast_elem(value, k)
        elif isinstance(value, (list, tuple)):
            a = to_sarr(value)
            v = raw(a if a._k == k else a.astype(k))
        elif hasattr(value, 'toarray'):
            raise ValueError('setting an array element with a sequence.')
        else:
            raise TypeError("float() argument must be a string or a number, not '%s'" % type(value).__name__)
        np.ndarray.__setitem__(self.view(np.ndarray), key, v)

    def item(self, *a):
        r = self.view(np.ndarray).item(*a)
        return r.item() if isinstance(r, Sym) else r

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def fill(self, v):
        self[...] = v

    # ------------------------------------------------------------------ methods
    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        k = dt if isinstance(dt, str) and dt in ('f', 'c', 'i', 'b') else kind_of_dtype(dt)
        if k == 'O':
            k = self._k
        if k == 'i' and self._k in 'fi':
            o = self.view(np.ndarray)
            if all(e.re.op == 'c' for e in o.ravel()):
                r = np.empty(o.shape, dtype=np.int64 if dt in ('i', 'f', 'c', 'b') else np.dtype(dt))
                rf, of = r.reshape(-1), o.ravel()
                for i in range(of.size):
                    rf[i] = int(of[i].re.args)
                return r
        if k == self._k:
            return self.copy() if copy else self
        return emap(lambda e: cast_elem(e, k), self, k)

    def copy(self, order='C'):
        r = np.ndarray.copy(self, order)
        return r

    def __deepcopy__(self, memo):
        return np.ndarray.copy(self)

    def __copy__(self):
        return np.ndarray.copy(self)

    def conj(self):
        return emap(lambda e: e.conjugate(), self, self._k) if self._k == 'c' else self

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, add_elems, axis, keepdims, 'i' if self._k == 'b' else self._k, out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, prod_elems, axis, keepdims, 'i' if self._k == 'b' else self._k, out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = count_(self, axis)
        return self.sum(axis=axis, keepdims=keepdims) / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        n = count_(self, axis)
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        d = (d * d.conj()).real if self._k == 'c' else d * d
        return d.sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return emap(lambda e: e.sqrt(), v, 'f') if isinstance(v, SArr) else v.sqrt()

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, lambda l: fold(s_max, l), axis, keepdims, self._k, out)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, lambda l: fold(s_min, l), axis, keepdims, self._k, out)

    def ptp(self, axis=None, **kw):
        return self.max(axis=axis) - self.min(axis=axis)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, lambda l: mkbool(tm.band(*[tobool(e) for e in l])), axis, keepdims, 'b', out)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, lambda l: mkbool(tm.bor(*[tobool(e) for e in l])), axis, keepdims, 'b', out)

    def cumsum(self, axis=None, dtype=None, out=None):
        if axis is None:
            a, axis = self.ravel(), 0
        else:
            a = self.copy()
        o = np.moveaxis(a.view(np.ndarray), axis, 0)
        r = np.empty(o.shape, dtype=object)
        acc = None
        for i in range(o.shape[0]):
            acc = o[i] if acc is None else acc + o[i]
            r[i] = acc
        return wrap(np.moveaxis(r, 0, axis), self._k)

    def argmax(self, axis=None, out=None):
        return argext(self, axis, lambda a, b: s_lt(a, b))

    def argmin(self, axis=None, out=None):
        return argext(self, axis, lambda a, b: s_lt(b, a))

    def argsort(self, axis=-1, kind=None, order=None):
        if self.ndim != 1:
            raise Unsupported('argsort of a matrix')
        return np.array(sorted(range(self.size), key=_Key.maker(self)), dtype=np.int64)

    def sort(self, axis=-1, kind=None, order=None):
        if self.ndim != 1:
            raise Unsupported('sort of a matrix')
        p = self.argsort()
        self[...] = self[p].copy()

    def nonzero(self):
        m = self.view(np.ndarray)
        b = np.zeros(m.shape, dtype=bool)
        for i in np.ndindex(*m.shape):
            b[i] = bool(mkbool(tobool(m[i])))
        return b.nonzero()

    def dot(self, b, out=None):
        if hasattr(b, 'toarray') and not isinstance(b, np.ndarray):
            raise Unsupported('ndarray.dot(sparse)')
        return dot_(self, b)

    def __matmul__(self, o):
        if hasattr(o, '_spk'):
            return NotImplemented
        return matmul_(self, o)

    def __rmatmul__(self, o):
        return matmul_(o, self)

    def __mul__(self, o):
        if hasattr(o, '_spk'):
            return NotImplemented
        return np.ndarray.__mul__(self, o)

    def __add__(self, o):
        if hasattr(o, '_spk'):
            return NotImplemented
        return np.ndarray.__add__(self, o)

    def __sub__(self, o):
        if hasattr(o, '_spk'):
            return NotImplemented
        return np.ndarray.__sub__(self, o)

    def __truediv__(self, o):
        if hasattr(o, '_spk'):
            return NotImplemented
        return np.ndarray.__truediv__(self, o)

    def trace(self, *a, **k):
        return self.diagonal().sum()

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported('round decimals')
        return emap(lambda e: e.rint(), self, self._k)

    def clip(self, min=None, max=None, **k):
        r = self if min is None else np.maximum(self, min)
        return r if max is None else np.minimum(r, max)

    def repeat(self, *a, **k):
        return wrap(self.view(np.ndarray).repeat(*a, **k), self._k)

    def take(self, idx, axis=None, **k):
        return wrap(self.view(np.ndarray).take(idx, axis=axis, **k), self._k)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.view(np.ndarray).ravel()[0])

    def __float__(self):
        return float(self.view(np.ndarray).ravel()[0]) if self.size == 1 else np.ndarray.__float__(self)

    def __complex__(self):
        return complex(self.view(np.ndarray).ravel()[0])

    def __int__(self):
        return int(self.view(np.ndarray).ravel()[0])

    def __index__(self):
        if self.ndim == 0:
            return self.view(np.ndarray).item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __repr__(self):
        return 'SArr<%s>%r' % (self._k, self.view(np.ndarray).tolist())

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        return (rebuild, (self.view(np.ndarray).tolist(), self.shape, self._k))

    # ------------------------------------------------------------------ protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npf
        return npf.dispatch(func, args, kwargs)


def rebuild(l, shape, k):
    a = np.empty(shape, dtype=object)
    f = to_sarr(l)
    a[...] = raw(f).reshape(shape)
    return wrap(a, k)


class SMat(SArr, np.matrix):
    """np.matrix look-alike"""

    def __array_finalize__(self, obj):
        SArr.__array_finalize__(self, obj)
        if self.ndim < 2:
            self.shape = (1, self.size) if self.ndim else (1, 1)

    def __getitem__(self, key):
        k = conv_key(key)
        o = self.view(np.ndarray)[k]
        if not isinstance(o, np.ndarray):
            return o
        if o.ndim == 0:
            return o.item()
        if o.ndim == 1:
            sh = o.shape[0]
            # a column selected by an integer keeps its orientation
            if isinstance(k, tuple) and len(k) > 1 and not isinstance(k[1], (slice, type(Ellipsis), np.ndarray, list)):
                o = o.reshape(sh, 1)
            else:
                o = o.reshape(1, sh)
        return wrap(o, self._k, SMat)

    def __mul__(self, o):
        if isinstance(o, (np.ndarray, list, tuple)):
            return smat(dot_(self, np.asmatrix(o) if not isinstance(o, np.ndarray) else o))
        if hasattr(o, '_spk'):
            return NotImplemented
        return smat(np.ndarray.__mul__(self.view(SArr), o))

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return smat(dot_(o, self))
        return smat(np.ndarray.__mul__(self.view(SArr), o))

    def __pow__(self, n):
        raise Unsupported('matrix power')

    @property
    def A(self):
        return self.view(SArr)

    @property
    def A1(self):
        return self.view(SArr).ravel()

    @property
    def H(self):
        return smat(self.view(SArr).conj().T)

    @property
    def T(self):
        return smat(self.view(SArr).T)

    @property
    def real(self):
        return smat(self.view(SArr).real)

    @property
    def imag(self):
        return smat(self.view(SArr).imag)

    def astype(self, dt, *a, **k):
        r = self.view(SArr).astype(dt)
        return smat(r) if isinstance(r, SArr) else np.asmatrix(r)

    def sum(self, axis=None, dtype=None, out=None, **k):
        r = self.view(SArr).sum(axis=axis, keepdims=axis is not None)
        return smat(r) if isinstance(r, SArr) else r

    def mean(self, axis=None, dtype=None, out=None, **k):
        r = self.view(SArr).mean(axis=axis, keepdims=axis is not None)
        return smat(r) if isinstance(r, SArr) else r

    def flatten(self, order='C'):
        return smat(wrap(self.view(np.ndarray).flatten(order), self._k))

    def ravel(self, order='C'):
        return smat(wrap(self.view(np.ndarray).ravel(order), self._k))

    def squeeze(self, axis=None):
        return self

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def conj(self):
        return smat(self.view(SArr).conj())
    conjugate = conj

    def transpose(self, *a):
        return self.T

    def diagonal(self, *a, **k):
        return smat(wrap(self.view(np.ndarray).diagonal(*a, **k).copy(), self._k))


def smat(a):
    a = a if isinstance(a, SArr) else to_sarr(a)
    o = a.view(np.ndarray)
    if o.ndim == 1:
        o = o.reshape(1, -1)
    elif o.ndim == 0:
        o = o.reshape(1, 1)
    return wrap(o, a._k, SMat)


class _Key(object):
    __slots__ = ('e', 'i')

    @staticmethod
    def maker(a):
        els = list(a.view(np.ndarray))

        def mk(i):
            k = _Key()
            k.e, k.i = els[i], i
            return k
        return mk

    def __lt__(self, o):
        return bool(s_lt(lift(self.e), lift(o.e)))


def raw(a):
    return a.view(np.ndarray)


def wrap(o, k, cls=None):
    r = o.view(cls or SArr)
    r._k = k
    return r


def empty(shape, k):
    return wrap(np.empty(shape, dtype=object), k)


_ZEROE = {'f': Sym(ZERO, ZERO, 'f'), 'c': Sym(ZERO, ZERO, 'c'), 'i': Sym(ZERO, ZERO, 'i'), 'b': np.False_}


def zeros(shape, k='f'):
    o = np.empty(shape, dtype=object)
    o.fill(_ZEROE[k])
    return wrap(o, k)


def zeros_like_(a, k):
    return zeros(a.shape, k)


def full(shape, v, k):
    o = np.empty(shape, dtype=object)
    o.fill(cast_elem(v, k))
    return wrap(o, k)


def elem_kind(e):
    if isinstance(e, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(e, Sym):
        return e.kind
    if isinstance(e, (int, np.integer)):
        return 'i'
    if isinstance(e, (float, np.floating, Fraction)):
        return 'f'
    if isinstance(e, (complex, np.complexfloating)):
        return 'c'
    if e is None:
        return 'f'
    raise Unsupported('array element %r' % (type(e),))


def to_sarr(x, k=None):
    """Anything array-like -> SArr (copy unless already one)"""
    if isinstance(x, SArr):
        return x if k is None or k == x._k else to_sarr(x.astype(k))
    if hasattr(x, '_spk'):
        raise Unsupported('sparse to array')
    if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
        x = x.to_numpy()
        if isinstance(x, SArr):
            return x
    if isinstance(x, (Sym, SymBool)) or is_num(x):
        o = np.empty((), dtype=object)
        kk = k or elem_kind(x)
        o[()] = cast_elem(x, kk)
        return wrap(o, kk)
    if isinstance(x, np.ndarray):
        o = np.empty(x.shape, dtype=object)
        of, xf = o.reshape(-1), x.ravel()
        if x.dtype == OBJ:
            kk = k
            if kk is None:
                kk = 'b' if x.size else 'f'
                for e in xf:
                    kk = kmax(kk, elem_kind(e))
            for i in range(xf.size):
                of[i] = cast_elem(xf[i], kk)
        else:
            kk = k or kind_of_dtype(x.dtype)
            cache = {}
            for i, e in enumerate(xf.tolist()):
                v = cache.get((e, type(e)))
                if v is None:
                    v = cast_elem(e, kk)
                    if e == e and e != 0:
                        cache[(e, type(e))] = v
                of[i] = v
        cls = SMat if isinstance(x, np.matrix) else SArr
        return wrap(o, kk, cls)
    # nested sequences
    if isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__'):
        x = list(x)
        if not x:
            return zeros((0,), k or 'f')
        parts = [to_sarr(e) for e in x]
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError('inhomogeneous array')
        kk = 'b'
        for p in parts:
            kk = kmax(kk, p._k)
        kk = k or kk
        o = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            p = p if p._k == kk else to_sarr(p.astype(kk))
            if sh == ():
                o[i] = raw(p).item()
            else:
                o[i] = raw(p)
        return wrap(o, kk)
    raise Unsupported('cannot make an array of %r' % (type(x),))


def emap(f, a, k):
    """elementwise map"""
    if not isinstance(a, SArr):
        if isinstance(a, np.ndarray):
            a = to_sarr(a)
        else:
            return f(lift(a) if not isinstance(a, SymBool) else a)
    o = a.view(np.ndarray)
    r = np.empty(o.shape, dtype=object)
    if o.ndim == 0:
        r[()] = f(o.item())
        return wrap(r, k, type(a))
    rf, of = r.reshape(-1), o.ravel()
    for i in range(of.size):
        rf[i] = f(of[i])
    return wrap(r, k, type(a))


def fold(f, l):
    l = list(l)
    r = l[0]
    for x in l[1:]:
        r = f(r, x)
    return r


def add_elems(l):
    l = [lift(x) for x in l]
    if not l:
        return _ZEROE['f']
    k = l[0].kind
    for x in l[1:]:
        k = kmax(k, x.kind)
    return Sym(tm.addn([x.re for x in l]), tm.addn([x.im for x in l]), k)


def prod_elems(l):
    r = Sym(ONE, ZERO, 'i')
    for x in l:
        r = r * x
    return r


def count_(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def finish(e, k):
    return cast_elem(e, k)


def reduce_(a, f, axis, keepdims, k, out=None):
    o = a.view(np.ndarray)
    if axis is None:
        r = cast_elem(f(list(o.ravel())), k)
        if keepdims:
            rr = np.empty((1,) * a.ndim, dtype=object)
            rr.fill(r)
            return wrap(rr, k)
        return r
    axes = tuple(sorted(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))))
    rest = [i for i in range(a.ndim) if i not in axes]
    m = o.transpose(rest + list(axes)).reshape([o.shape[i] for i in rest] + [-1]) if o.size else \
        np.empty([o.shape[i] for i in rest] + [int(np.prod([o.shape[i] for i in axes]))], dtype=object)
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*m.shape[:-1]):
        l = list(m[i])
        r[i] = cast_elem(f(l), k)
    if keepdims:
        r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    if r.ndim == 0:
        return r.item()
    w = wrap(r, k)
    if k == 'b':
        w = native_bool(w)
    if out is not None:
        out[...] = w
        return out
    return w


def argext(a, axis, less):
    if axis is not None and a.ndim > 1:
        o = np.moveaxis(a.view(np.ndarray), axis, -1)
        r = np.empty(o.shape[:-1], dtype=np.int64)
        for i in np.ndindex(*o.shape[:-1]):
            r[i] = argext(wrap(o[i], a._k), None, less)
        return r
    l = list(a.view(np.ndarray).ravel())
    b = 0
    for i in range(1, len(l)):
        if bool(less(lift(l[b]), lift(l[i]))):
            b = i
    return np.int64(b)


def native_bool(a):
    """SArr of bools -> native bool array when fully decided"""
    o = a.view(np.ndarray)
    if all(isinstance(e, (bool, np.bool_)) for e in o.ravel()):
        r = np.empty(o.shape, dtype=bool)
        r.reshape(-1)[:] = [bool(e) for e in o.ravel()]
        return np.asmatrix(r) if isinstance(a, SMat) else r
    return a


def gather(a, key):
    """a[.., index, ..] for a vector of symbolic indices that are in range and not negative: a selection instead of one path per value"""
    t = key if isinstance(key, tuple) else (key,)
    ax = [i for i, k in enumerate(t) if isinstance(k, SArr)]
    if len(ax) != 1 or len(t) > a.ndim or not all(isinstance(k, slice) for i, k in enumerate(t) if i != ax[0]):
        return None
    ax = ax[0]
    ix = t[ax].view(np.ndarray)
    if t[ax]._k != 'i' or ix.ndim != 1 or not any(isinstance(e, Sym) and not e.is_const for e in ix):
        return None
    from . import explore
    b = np.ndarray.__getitem__(a.view(np.ndarray), tuple(slice(None) if i == ax else conv_slice(k) for i, k in enumerate(t)))
    n = b.shape[ax]
    for e in ix:
        e = lift(e)
        bad = tm.bor(tm.cmp('<', e.re), tm.cmp('<=', tm.sub(tm.const(n), e.re)))
        if bad is not tm.FALSE and explore.cur().known.get(bad) is not False and explore.cur().feasible([bad]).status != 'unsat':
            return None
    cols = [np.take(b, j, axis=ax) for j in range(n)]
    out = []
    for e in ix:
        e = lift(e)
        r = cols[n - 1]
        for j in range(n - 2, -1, -1):
            c = mkbool(tm.cmp('==', tm.sub(e.re, tm.const(j))))
            sel = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                sel[i] = s_where(c, cols[j][i], r[i])
            r = sel
        out.append(r)
    return wrap(np.stack(out, axis=ax), a._k)


def conv_key(key):
    """Index keys: symbolic ints are enumerated, symbolic masks decided element by element"""
    if isinstance(key, tuple):
        return tuple(conv_key(k) if not (k is None or isinstance(k, (slice, int, type(Ellipsis)))) else
                     (conv_slice(k) if isinstance(k, slice) else k) for k in key)
    if isinstance(key, slice):
        return conv_slice(key)
    if isinstance(key, SArr):
        o = key.view(np.ndarray)
        if key._k == 'b':
            r = np.empty(o.shape, dtype=bool)
            rf, of = r.reshape(-1), o.ravel()
            for i in range(of.size):
                rf[i] = bool(of[i])
            return r
        if key._k == 'i':
            r = np.empty(o.shape, dtype=np.int64)
            rf, of = r.reshape(-1), o.ravel()
            for i in range(of.size):
                rf[i] = of[i].__index__()
            return r
        if key.size == 0:
            return np.zeros(key.shape, dtype=np.int64)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, Sym):
        if key.kind != 'i':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                             'boolean arrays are valid indices')
        return key.__index__()
    if isinstance(key, list) and has_sym(key):
        return conv_key(to_sarr(key))
    if isinstance(key, np.matrix) and key.dtype == bool:
        return np.asarray(key)
    return key


def conv_slice(s):
    def c(v):
        return v.__index__() if isinstance(v, Sym) else v
    return slice(c(s.start), c(s.stop), c(s.step))


# ------------------------------------------------------------------------------------------------ ufuncs
def _cmpf(f):
    def g(a, b):
        if isinstance(a, (SymBool, bool, np.bool_)):
            a = lift(a)
        if isinstance(b, (SymBool, bool, np.bool_)):
            b = lift(b)
        return f(lift(a), lift(b))
    return g


def _iscl(a, b):
    raise Unsupported('isclose')


BINB = {'equal': _cmpf(s_eq), 'not_equal': _cmpf(lambda a, b: b_not(s_eq(a, b))), 'less': _cmpf(s_lt),
        'less_equal': _cmpf(s_le), 'greater': _cmpf(lambda a, b: s_lt(b, a)),
        'greater_equal': _cmpf(lambda a, b: s_le(b, a)),
        'logical_and': lambda a, b: mkbool(tm.band(tobool(a), tobool(b))),
        'logical_or': lambda a, b: mkbool(tm.bor(tobool(a), tobool(b))),
        'logical_xor': lambda a, b: mkbool(tm.bxor(tobool(a), tobool(b))),
        'bitwise_and': lambda a, b: mkbool(tm.band(tobool(a), tobool(b))),
        'bitwise_or': lambda a, b: mkbool(tm.bor(tobool(a), tobool(b))),
        'bitwise_xor': lambda a, b: mkbool(tm.bxor(tobool(a), tobool(b)))}
UNB = {'logical_not': lambda a: b_not(a), 'invert': lambda a: b_not(a),
       'isnan': lambda a: np.False_, 'isinf': lambda a: np.False_, 'isfinite': lambda a: np.True_,
       'signbit': lambda a: mkbool(tm.cmp('<', lift(a).re))}
UN = {'negative': (lambda a: -lift(a), None), 'positive': (lambda a: a, None), 'absolute': (lambda a: s_abs(lift(a)), 'r'),
      'fabs': (lambda a: s_abs(lift(a)), 'r'),
      'conjugate': (lambda a: lift(a).conjugate(), None), 'exp': (lambda a: lift(a).exp(), 'F'),
      'sqrt': (lambda a: lift(a).sqrt(), 'F'), 'log': (lambda a: lift(a).log(), 'F'),
      'log10': (lambda a: lift(a).log10(), 'F'), 'log2': (lambda a: lift(a).log() / lift(2.0).log(), 'F'),
      'expm1': (lambda a: lift(a).expm1(), 'F'), 'log1p': (lambda a: lift(a).log1p(), 'F'),
      'cos': (lambda a: lift(a).cos(), 'F'), 'sin': (lambda a: lift(a).sin(), 'F'), 'tan': (lambda a: lift(a).tan(), 'F'),
      'cosh': (lambda a: lift(a).cosh(), 'F'), 'sinh': (lambda a: lift(a).sinh(), 'F'),
      'tanh': (lambda a: lift(a).tanh(), 'F'),
      'square': (lambda a: lift(a) * lift(a), None), 'reciprocal': (lambda a: 1.0 / lift(a), 'F'),
      'deg2rad': (lambda a: lift(a).deg2rad(), 'F'), 'radians': (lambda a: lift(a).deg2rad(), 'F'),
      'rad2deg': (lambda a: lift(a).rad2deg(), 'F'), 'degrees': (lambda a: lift(a).rad2deg(), 'F'),
      'sign': (lambda a: lift(a).sign(), None), 'floor': (lambda a: lift(a).floor(), 'F'),
      'ceil': (lambda a: lift(a).ceil(), 'F'), 'rint': (lambda a: lift(a).rint(), 'F'),
      'trunc': (lambda a: lift(a).trunc(), 'F')}
BIN = {'add': (lambda a, b: lift(a) + lift(b), None), 'subtract': (lambda a, b: lift(a) - lift(b), None),
       'multiply': (lambda a, b: lift(a) * lift(b), None), 'true_divide': (lambda a, b: lift(a) / lift(b), 'F'),
       'divide': (lambda a, b: lift(a) / lift(b), 'F'),
       'power': (lambda a, b: lift(a) ** lift(b), None), 'float_power': (lambda a, b: lift(a) ** lift(b), 'F'),
       'maximum': (s_max, None), 'minimum': (s_min, None), 'fmax': (s_max, None), 'fmin': (s_min, None),
       'floor_divide': (lambda a, b: lift(a) // lift(b), None), 'remainder': (lambda a, b: lift(a) % lift(b), None),
       'fmod': (lambda a, b: lift(a) % lift(b), None),
       'arctan2': (lambda a, b: s_angle(Sym(lift(b).re, lift(a).re, 'c')), 'F'),
       'hypot': (lambda a, b: s_abs(Sym(lift(a).re, lift(b).re, 'c')), 'F')}


def _operand(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        return to_sarr(x)
    if isinstance(x, (Sym, SymBool)) or is_num(x):
        return to_sarr(x)
    if hasattr(x, 'to_numpy'):
        return to_sarr(x.to_numpy())
    return None


def res_kind(name, rule, ops):
    k = 'b'
    for a in ops:
        k = kmax(k, a._k)
    if name in ('add', 'subtract', 'multiply') and k == 'b':
        k = 'i' if name != 'multiply' else 'b'
    if rule == 'F' and k in 'bi':
        k = 'f'
    if rule == 'r' and k == 'c':
        k = 'f'
    if name == 'power' and k == 'b':
        k = 'i'
    return k


def ufunc_(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    if any(hasattr(x, '_spk') for x in inputs):
        return NotImplemented
    if name == 'matmul' and method == '__call__':
        r = matmul_(*inputs)
    elif method == '__call__':
        ops = [_operand(x) for x in inputs]
        if any(o is None for o in ops):
            return NotImplemented
        mat = any(isinstance(o, SMat) for o in ops)
        if name in BINB and len(ops) == 2:
            f, k = BINB[name], 'b'
        elif name in UNB and len(ops) == 1:
            f, k = UNB[name], 'b'
            if name == 'invert' and ops[0]._k != 'b':
                raise Unsupported('integer invert')
        elif name in UN and len(ops) == 1:
            f, k = UN[name][0], res_kind(name, UN[name][1], ops)
        elif name in BIN and len(ops) == 2:
            f, k = BIN[name][0], res_kind(name, BIN[name][1], ops)
        else:
            raise Unsupported('ufunc %s' % name)
        r = apply_(f, ops, k, where, out)
        if mat and isinstance(r, np.ndarray) and r.ndim == 2:
            r = r.view(SMat) if isinstance(r, SArr) else np.asmatrix(r)
    elif method == 'reduce':
        a = to_sarr(inputs[0])
        axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        kd = kw.get('keepdims', False)
        if name == 'add':
            r = a.sum(axis=axis, keepdims=kd)
        elif name == 'multiply':
            r = a.prod(axis=axis, keepdims=kd)
        elif name == 'maximum':
            r = a.max(axis=axis, keepdims=kd)
        elif name == 'minimum':
            r = a.min(axis=axis, keepdims=kd)
        elif name == 'logical_and':
            r = a.all(axis=axis, keepdims=kd)
        elif name == 'logical_or':
            r = a.any(axis=axis, keepdims=kd)
        else:
            raise Unsupported('%s.reduce' % name)
    elif method == 'outer':
        a, b = to_sarr(inputs[0]), to_sarr(inputs[1])
        r = ufunc_(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    elif method == 'accumulate' and name == 'add':
        r = to_sarr(inputs[0]).cumsum(axis=kw.get('axis', 0))
    elif method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = conv_key(idx)
        f = BIN[name][0]
        vals = inputs[2] if len(inputs) > 2 else None
        o = a.view(np.ndarray)
        pos = np.arange(o.size).reshape(o.shape)[idx]
        v = np.broadcast_to(raw(to_sarr(vals)), pos.shape)
        of = o.reshape(-1)
        for i in np.ndindex(*pos.shape):
            of[pos[i]] = cast_elem(f(of[pos[i]], v[i]), a._k)
        return None
    else:
        raise Unsupported('ufunc %s.%s' % (name, method))
    if out is not None:
        if isinstance(out, SArr):
            if isinstance(r, SArr) and r._k == 'c' and out._k != 'c':
                raise TypeError("Cannot cast ufunc '%s' output from dtype('complex128') to dtype('float64') with "
                                "casting rule 'same_kind'" % name)
            if out._k == 'i' and isinstance(r, SArr) and r._k == 'f':
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64')" % name)
            if where is True:
                out[...] = r
            else:
                m = np.broadcast_to(raw(to_sarr(where)), out.shape)
                rr = np.broadcast_to(raw(to_sarr(r)), out.shape)
                o = out.view(np.ndarray)
                for i in np.ndindex(*out.shape):
                    o[i] = cast_elem(s_where(m[i], rr[i], o[i]), out._k)
            return out
        raise TypeError('cannot write symbolic values into a native array')
    return r


def apply_(f, ops, k, where=True, out=None):
    arrs = [o.view(np.ndarray) for o in ops]
    if len(arrs) == 1:
        a = arrs[0]
        r = np.empty(a.shape, dtype=object)
        if a.ndim == 0:
            e = f(a.item())
            return cast_elem(e, k)
        rf, af = r.reshape(-1), a.ravel()
        for i in range(af.size):
            rf[i] = cast_elem(f(af[i]), k)
    else:
        a, b = arrs
        if a.shape != b.shape:
            a, b = np.broadcast_arrays(a, b)
        r = np.empty(a.shape, dtype=object)
        if a.ndim == 0:
            return cast_elem(f(a.item(), b.item()), k)
        rf = r.reshape(-1)
        al, bl = a.ravel().tolist(), b.ravel().tolist()
        if where is not True:
            w = np.broadcast_to(np.asarray(where, dtype=object) if not isinstance(where, SArr) else raw(where),
                                a.shape).ravel().tolist()
            for i in range(len(al)):
                rf[i] = cast_elem(f(al[i], bl[i]), k) if bool(w[i]) else _ZEROE[k]
        else:
            for i in range(len(al)):
                rf[i] = cast_elem(f(al[i], bl[i]), k)
    w = wrap(r, k)
    return native_bool(w) if k == 'b' else w


# ------------------------------------------------------------------------------------------------ products
def _consts(o):
    """2-D object array of constant real Syms -> list of rows of Fractions or None"""
    out = []
    for row in o.tolist():
        r = []
        for e in row:
            if not isinstance(e, Sym) or e.re.op != 'c' or e.im is not ZERO:
                return None
            r.append(e.re.args)
        out.append(r)
    return out


def matmul_(a, b):
    if hasattr(a, '_spk') or hasattr(b, '_spk'):
        return NotImplemented
    mat = isinstance(a, np.matrix) or isinstance(b, np.matrix)
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    k = kmax(kmax(a._k, b._k), 'i')
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim > 2 and b.ndim > 2 or max(a.ndim, b.ndim) > 3:
            A = np.broadcast_to(raw(a), np.broadcast_shapes(a.shape[:-2], b.shape[:-2]) + a.shape[-2:])
            Bb = np.broadcast_to(raw(b), np.broadcast_shapes(a.shape[:-2], b.shape[:-2]) + b.shape[-2:])
        else:
            n = a.shape[0] if a.ndim > 2 else b.shape[0]
            A = raw(a) if a.ndim > 2 else np.broadcast_to(raw(a), (n,) + a.shape)
            Bb = raw(b) if b.ndim > 2 else np.broadcast_to(raw(b), (n,) + b.shape)
        res = None
        for i in np.ndindex(*A.shape[:-2]):
            m = raw(matmul_(wrap(A[i], a._k), wrap(Bb[i], b._k)))
            if res is None:
                res = np.empty(A.shape[:-2] + m.shape, dtype=object)
            res[i] = m
        return wrap(res, k)
    A = raw(a).reshape(1, -1) if a.ndim == 1 else raw(a)
    Bm = raw(b).reshape(-1, 1) if b.ndim == 1 else raw(b)
    if A.shape[1] != Bm.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)'
                         % (Bm.shape[0], A.shape[1]))
    n, m, p = A.shape[0], A.shape[1], Bm.shape[1]
    r = np.empty((n, p), dtype=object)
    rows = A.tolist()
    cols = Bm.T.tolist()
    # sparse rows: skip exact zeros
    nzr = [[(j, lift(e)) for j, e in enumerate(row) if not is_zero(e)] for row in rows]
    nzc = [{j: lift(e) for j, e in enumerate(col) if not is_zero(e)} for col in cols]
    for i in range(n):
        ri = nzr[i]
        for q in range(p):
            cq = nzc[q]
            re, im = [], []
            for j, x in ri:
                y = cq.get(j)
                if y is None:
                    continue
                re.append(tm.mul(x.re, y.re))
                if x.im is not ZERO or y.im is not ZERO:
                    re.append(tm.neg(tm.mul(x.im, y.im)))
                    im.append(tm.mul(x.re, y.im))
                    im.append(tm.mul(x.im, y.re))
            r[i, q] = Sym(tm.addn(re) if len(re) != 1 else re[0], tm.addn(im), k)
    if a.ndim == 1 and b.ndim == 1:
        return r[0, 0]
    if a.ndim == 1:
        r = r[0]
    elif b.ndim == 1:
        r = r[:, 0]
    w = wrap(r, k)
    return smat(w) if mat else w


def is_zero(e):
    if isinstance(e, Sym):
        return e.re is ZERO and e.im is ZERO
    return isinstance(e, (bool, np.bool_)) and not e


def dot_(a, b):
    if hasattr(a, '_spk') or hasattr(b, '_spk'):
        raise Unsupported('np.dot with a sparse matrix')
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return np.multiply(to_sarr(a), to_sarr(b))
    return matmul_(a, b)
