"""numpy facade: the module the code under test sees as `numpy`.

Anything that would hold float or complex values is held exactly, as a symbolic array (SArr); integer and Boolean
arrays stay native.  Whatever is not overridden falls through to the real numpy.
"""
import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import terms as tm
from . import explore
from .terms import Unsupported, ZERO, ONE, const
from .sym import (Sym, SymBool, lift, mkbool, tobool, kmax, is_num, s_where, s_angle, s_abs, s_eq, s_lt, s_le, PI)
from .arr import (SArr, SMat, to_sarr, emap, zeros as szeros, full as sfull, empty as sempty, cast_elem, kind_of_dtype,
                  has_sym, conv_key, native_bool, matmul_, dot_, wrap, raw, smat, ufunc_, elem_kind, add_elems, OBJ, _Key)

SYMBOLIC_FNS = {}


def _contains_float(x, depth=6):
    """does x (scalar, array, nested list) hold float/complex content?"""
    if isinstance(x, (Sym, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'fc' or (x.dtype == OBJ and has_sym(x))
    if isinstance(x, (float, complex, np.floating, np.complexfloating, Fraction)):
        return True
    if isinstance(x, SymBool):
        return True
    if isinstance(x, (list, tuple)) and depth:
        return any(_contains_float(e, depth - 1) for e in x)
    if hasattr(x, 'to_numpy'):
        try:
            return _contains_float(x.to_numpy())
        except Exception:
            return False
    return False


def _is_objarr(x):
    return isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype == OBJ


def _leafs(x):
    """list of arrays in a possibly nested sequence"""
    if isinstance(x, np.ndarray) or not isinstance(x, (list, tuple)):
        return [x]
    r = []
    for e in x:
        r += _leafs(e)
    return r


def _rebuildseq(x, f):
    if isinstance(x, (list, tuple)) and not isinstance(x, np.ndarray):
        return [_rebuildseq(e, f) for e in x]
    return f(x)


def finish(r, k, mat=False):
    """object result of a structural function -> SArr of kind k"""
    if isinstance(r, (list, tuple)):
        return [finish(e, k, mat) for e in r]
    if not isinstance(r, np.ndarray):
        return cast_elem(r, k) if isinstance(r, (Sym, SymBool)) or is_num(r) else r
    o = np.empty(r.shape, dtype=object)
    if r.ndim == 0:
        o[()] = cast_elem(r.item(), k)
    else:
        of = o.reshape(-1)
        for i, e in enumerate(r.ravel().tolist()):
            of[i] = e if isinstance(e, Sym) and e.kind == k else cast_elem(e, k)
    w = wrap(o, k)
    if k == 'b':
        return native_bool(w)
    return w.view(SMat) if mat and o.ndim == 2 else w


def _unwrapped(f):
    """implementation of a numpy python function without the __array_function__ layer"""
    return getattr(f, '__wrapped__', f)


def structural(realf, nseq=1, seq=False):
    """A function that only moves elements around. seq: the first argument is a sequence of arrays."""
    def g(*args, **kw):
        args = list(args)
        heads = args[:nseq]
        if not any(_contains_float(h) for h in heads):
            return realf(*args, **kw)
        k, mat = 'b', False
        for h in heads:
            for l in (_leafs(h) if seq else [h]):
                if isinstance(l, np.matrix):
                    mat = True
                l = to_sarr(l)
                k = kmax(k, l._k)

        def conv(l):
            return raw(to_sarr(l, k)) if l is not None else l
        for i in range(nseq):
            args[i] = _rebuildseq(args[i], conv) if seq else conv(args[i])
        return finish(realf(*args, **kw), k, mat)
    return g


# ------------------------------------------------------------------------------------------------ creation
def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    k = kind_of_dtype(dtype) if dtype is not None else None
    if k == 'O':
        if isinstance(x, SArr):
            return np.array(raw(x).tolist(), dtype=object).reshape(x.shape)
        if isinstance(x, (list, tuple)):
            return np.array(x, dtype=object)
        return np.array(x, dtype=object)
    if hasattr(x, '_spk'):
        r = np.empty((), dtype=object)
        r[()] = x
        if k is not None:
            raise TypeError("float() argument must be a string or a number, not '%s'" % type(x).__name__)
        return r
    if isinstance(x, (list, tuple)) and any(hasattr(e, '_spk') for e in x):
        return np.array(x, dtype=object)
    if k is None and not _contains_float(x):
        if _is_objarr(x) and x.size and all(isinstance(e, (bool, int, np.integer, np.bool_)) for e in x.ravel()):
            return np.array(x)
        return np.array(x, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
    if k in ('i', 'b') and not has_sym(x):
        return np.array(x, dtype=dtype, copy=copy, order=order, ndmin=ndmin)
    if isinstance(x, SArr):
        r = x.astype(k) if k is not None and k != x._k else (x.copy() if copy else x)
        if k in ('i', 'b') and isinstance(r, np.ndarray) and not isinstance(r, SArr):
            return r
        if isinstance(r, SMat) and not subok:
            r = r.view(SArr)
    else:
        if isinstance(x, (list, tuple)):
            try:
                r = to_sarr(x)
            except Unsupported:
                return np.array(x, dtype=dtype) if dtype is not None else np.array(x)
            except ValueError:
                return np.array(x, dtype=object)
        elif isinstance(x, np.ndarray) or isinstance(x, (Sym, SymBool)) or is_num(x) or hasattr(x, 'to_numpy'):
            r = to_sarr(x)
            if r is x:
                r = r.copy()
        elif hasattr(x, '__iter__'):
            r = to_sarr(list(x))
        else:
            return np.array(x, dtype=dtype)
        if k is not None and k != r._k:
            if isinstance(r, SArr):
                if k in 'fi' and r._k == 'c':
                    if not isinstance(x, np.ndarray):
                        raise TypeError("can't convert complex to float")
                r = r.astype(k)
        if isinstance(r, SMat):
            r = r.view(SArr)
    if isinstance(r, SArr) and r._k == 'b':
        r = native_bool(r)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, order=None, like=None):
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in 'iubUSM' and dtype is None:
        return np.asarray(x)
    if isinstance(x, SArr) and (dtype is None or kind_of_dtype(dtype) == x._k):
        return x.view(SArr)
    return array(x, dtype, copy=False)


def asanyarray(x, dtype=None, order=None, like=None):
    if isinstance(x, SMat) and dtype is None:
        return x
    return asarray(x, dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(e) for e in s)
    return int(s) if not isinstance(s, np.ndarray) else tuple(int(e) for e in np.atleast_1d(s))


def _mk(v):
    def g(shape, dtype=float, order='C', like=None):
        k = kind_of_dtype(dtype if dtype is not None else float)
        if k in 'fc':
            return sfull(_shape(shape), v, k)
        return (np.zeros if v == 0 else np.ones)(_shape(shape), dtype=dtype)
    return g


zeros, ones = _mk(0), _mk(1)


def empty(shape, dtype=float, order='C', like=None):
    k = kind_of_dtype(dtype)
    if k in 'fc':
        sh = _shape(shape)
        o = sempty(sh, k)
        f = raw(o).reshape(-1)
        for i in range(f.size):
            f[i] = Sym(tm.var('$empty%d' % next(_uninit)), ZERO, k)      # uninitialised memory: arbitrary
        return o
    return np.zeros(_shape(shape), dtype=dtype)


_uninit = itertools.count()


def full(shape, fill_value, dtype=None, order='C', like=None):
    if dtype is None:
        if not _contains_float(fill_value):
            return np.full(_shape(shape), fill_value)
        v = to_sarr(fill_value)
        r = sempty(_shape(shape), v._k)
        raw(r)[...] = np.broadcast_to(raw(v), r.shape)
        return r
    k = kind_of_dtype(dtype)
    if k in 'fc':
        v = to_sarr(fill_value, k)
        r = sempty(_shape(shape), k)
        raw(r)[...] = np.broadcast_to(raw(v), r.shape)
        return r
    if k == 'i' and has_sym(fill_value):        # integers keep the truncated value
        v = trunc(to_sarr(fill_value, 'f'))
        r = sempty(_shape(shape), 'f')
        raw(r)[...] = np.broadcast_to(raw(to_sarr(v)), r.shape)
        return r
    return np.full(_shape(shape), fill_value, dtype=dtype)


def _like(f):
    def g(a, dtype=None, order='K', subok=True, shape=None):
        k = a._k if isinstance(a, SArr) else None
        if dtype is None:
            if k is None:
                a2 = asarray(a)
                dtype = a2.dtype
            else:
                dtype = {'f': float, 'c': complex, 'b': bool, 'i': int}[k]
        r = f(np.shape(a) if shape is None else shape, dtype)
        return smat(r) if isinstance(a, SMat) else r
    return g


zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(empty)


def full_like(a, fill_value, dtype=None, **k):
    return full(np.shape(a), fill_value, dtype if dtype is not None else asarray(a).dtype)


def eye(N, M=None, k=0, dtype=float, order='C', like=None):
    kd = kind_of_dtype(dtype if dtype is not None else float)
    if kd in 'fc':
        return to_sarr(np.eye(int(N), None if M is None else int(M), int(k), dtype=int), kd)
    return np.eye(int(N), None if M is None else int(M), int(k), dtype=dtype)


def identity(n, dtype=None, like=None):
    return eye(n, dtype=dtype or float)


def arange(*a, **k):
    dt = k.get('dtype')
    if any(isinstance(x, Sym) for x in a):
        if all(isinstance(x, Sym) and (x.kind == 'i') or isinstance(x, (int, np.integer)) for x in a):
            a = [int(x) for x in a]
        else:
            b = [lift(x) for x in a]
            start, stop, step = (lift(0), b[0], lift(1)) if len(b) == 1 else (b[0], b[1], b[2] if len(b) > 2 else lift(1))
            n = int(((stop - start) / step).ceil().asint())
            return to_sarr([start + step * i for i in range(max(n, 0))])
    r = np.arange(*a, **k)
    if r.dtype.kind in 'fc':
        if len(a) == 1:
            start, step = 0, 1
        else:
            start, step = a[0], (a[2] if len(a) > 2 else 1)
        start, step = lift(start), lift(step)
        return to_sarr([start + step * i for i in range(len(r))], 'f') if len(r) else szeros((0,), 'f')
    return r


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    s, e = to_sarr(start), to_sarr(stop)
    div = (num - 1) if endpoint else num
    step = (e - s) / div if div else (e - s) * 0
    rows = [s + step * i if not (endpoint and i == num - 1 and num > 1) else e + s * 0 for i in range(num)]
    r = to_sarr([to_sarr(x) for x in rows]) if num else szeros((0,), 'f')
    if r._k == 'i':
        r = r.astype('f')
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


# ------------------------------------------------------------------------------------------------ structure
def block(arrays):
    ls = _leafs(arrays)
    if not any(_contains_float(l) for l in ls):
        return np.block(arrays)
    k, mat = 'b', False
    for l in ls:
        mat = mat or isinstance(l, np.matrix)
        k = kmax(k, to_sarr(l)._k)
    return finish(np.block(_rebuildseq(arrays, lambda l: raw(to_sarr(l, k)))), k)


def diag(v, k=0):
    if isinstance(v, SMat):
        return smat(v.view(SArr).diagonal(k).copy())
    if not _contains_float(v):
        return np.diag(v, k)
    a = to_sarr(v)
    if a.ndim == 1:
        n = a.shape[0] + builtins.abs(k)
        r = szeros((n, n), a._k)
        for i in range(a.shape[0]):
            raw(r)[(i, i + k) if k >= 0 else (i - k, i)] = raw(a)[i]
        return r
    return wrap(raw(a).diagonal(k).copy(), a._k)


def diagflat(v, k=0):
    return diag(to_sarr(v).ravel(), k)


def diagonal(a, *args, **kw):
    if isinstance(a, SArr):
        return a.diagonal(*args, **kw)
    return asarray(a).diagonal(*args, **kw)


def kron(a, b):
    if hasattr(a, '_spk') or hasattr(b, '_spk'):
        raise Unsupported('np.kron(sparse)')
    if not (_contains_float(a) or _contains_float(b)):
        return np.kron(a, b)
    mat = isinstance(a, np.matrix) or isinstance(b, np.matrix)
    a, b = to_sarr(a), to_sarr(b)
    nd_ = builtins.max(a.ndim, b.ndim)
    if nd_ == 0:
        return a * b
    A = raw(a).reshape((1,) * (nd_ - a.ndim) + a.shape)
    B = raw(b).reshape((1,) * (nd_ - b.ndim) + b.shape)
    shape = tuple(x * y for x, y in zip(A.shape, B.shape))
    k = kmax(a._k, b._k)
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*A.shape):
        x = lift(A[i])
        for j in np.ndindex(*B.shape):
            r[tuple(p * s + q for p, s, q in zip(i, B.shape, j))] = cast_elem(x * lift(B[j]), k)
    w = wrap(r, k)
    return w.view(SMat) if mat and nd_ == 2 else w


def outer(a, b, out=None):
    a, b = to_sarr(a).ravel(), to_sarr(b).ravel()
    if isinstance(a, SMat):
        a = a.A1
    if isinstance(b, SMat):
        b = b.A1
    return np.multiply(a[:, None], b[None, :])


def tril(m, k=0):
    m = asarray(m)
    if not isinstance(m, SArr):
        return np.tril(m, k)
    mask = np.tri(*m.shape[-2:], k=k, dtype=bool)
    return where(mask, m, lift(0))


def triu(m, k=0):
    m = asarray(m)
    if not isinstance(m, SArr):
        return np.triu(m, k)
    mask = np.tri(*m.shape[-2:], k=k - 1, dtype=bool)
    return where(mask, lift(0), m)


def where(c, *ab):
    if not ab:
        c = c if isinstance(c, np.ndarray) else asarray(c)
        return c.nonzero()
    a, b = ab
    if not any(_contains_float(x) or isinstance(x, SArr) for x in (c, a, b)):
        return np.where(c, a, b)
    c, a, b = to_sarr(c), to_sarr(a), to_sarr(b)
    C, A, B = np.broadcast_arrays(raw(c), raw(a), raw(b))
    k = kmax(a._k, b._k)
    r = np.empty(C.shape, dtype=object)
    for i in np.ndindex(*C.shape):
        r[i] = cast_elem(s_where(C[i], A[i], B[i]), k)
    return wrap(r, k)


def delete(arr, obj, axis=None):
    if isinstance(obj, (Sym, SArr)) or has_sym(obj):
        obj = conv_key(obj)
    if isinstance(arr, SArr):
        mat = isinstance(arr, SMat)
        o = raw(arr)
        if mat and axis is None:
            o = o.ravel()
        if isinstance(obj, range):
            obj = list(obj)
        r = np.delete(o, obj, axis)
        return wrap(r, arr._k, SMat if mat and r.ndim == 2 else SArr)
    if _contains_float(arr):
        return delete(to_sarr(arr), obj, axis)
    return np.delete(arr, obj, axis)


def insert(arr, obj, values, axis=None):
    if not (_contains_float(arr) or _contains_float(values)):
        return np.insert(arr, obj, values, axis)
    a = to_sarr(arr)
    v = to_sarr(values, a._k)
    return finish(np.insert(raw(a), conv_key(obj) if has_sym(obj) else obj, raw(v) if v.ndim else raw(v).item(), axis), a._k)


def append(arr, values, axis=None):
    if axis is None:
        return concatenate((ravel(arr), ravel(values)))
    return concatenate((arr, values), axis)


def ravel(a, order='C'):
    return asanyarray(a).ravel(order)


def reshape(a, newshape, order='C'):
    return asanyarray(a).reshape(newshape, order=order)


def transpose(a, axes=None):
    a = asanyarray(a)
    return a.T if axes is None else a.transpose(axes)


def copy(a, order='K', subok=False):
    return array(a)


concatenate = structural(np.concatenate, seq=True)
_conc = concatenate


def concatenate(arrays, axis=0, out=None, dtype=None, casting='same_kind'):
    if isinstance(arrays, np.ndarray) and not isinstance(arrays, SArr) and arrays.dtype == OBJ and arrays.ndim == 1:
        arrays = list(arrays)
    if isinstance(arrays, np.ndarray):
        arrays = list(arrays)
    if not isinstance(arrays, (list, tuple)):
        arrays = list(arrays)
    if any(hasattr(x, '_spk') for x in arrays):
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    return _conc(arrays, axis)


def _stackf(f):
    g = structural(f, seq=True)

    def h(tup, *a, **k):
        if any(hasattr(x, '_spk') for x in tup):
            raise Unsupported('stacking sparse matrices with numpy')
        return g(list(tup), *a, **k)
    return h


hstack, vstack, dstack, stack, column_stack = (_stackf(f) for f in (np.hstack, np.vstack, np.dstack, np.stack,
                                                                   np.column_stack))
row_stack = vstack


def split(ary, ios, axis=0):
    return np.array_split(ary, ios, axis) if False else _split(ary, ios, axis)


def _split(ary, ios, axis=0):
    if not isinstance(ary, SArr) and not _contains_float(ary):
        return np.split(ary, ios, axis)
    a = to_sarr(ary)
    if isinstance(ios, (list, tuple, np.ndarray)):
        cuts = [0] + [int(i) for i in ios] + [a.shape[axis]]
    else:
        n = int(ios)
        if a.shape[axis] % n:
            raise ValueError('array split does not result in an equal division')
        s = a.shape[axis] // n
        cuts = [s * i for i in range(n + 1)]
    out = []
    for i in range(len(cuts) - 1):
        ix = [slice(None)] * a.ndim
        ix[axis] = slice(cuts[i], cuts[i + 1])
        out.append(a[tuple(ix)])
    return out


def hsplit(a, ios):
    return _split(a, ios, 1 if np.ndim(a) > 1 else 0)


def vsplit(a, ios):
    return _split(a, ios, 0)


def array_split(ary, n, axis=0):
    a = asarray(ary)
    if not isinstance(a, SArr) or not isinstance(n, (int, np.integer)):
        return np.array_split(ary, n, axis) if not isinstance(a, SArr) else _split(a, n, axis)
    L = a.shape[axis]
    q, r = divmod(L, n)
    cuts = list(np.cumsum([q + 1] * r + [q] * (n - r)))[:-1]
    return _split(a, cuts, axis)


# ------------------------------------------------------------------------------------------------ elementwise
def _uf(name):
    u = getattr(np, name)

    def g(*args, **kw):
        n = u.nin
        ins, outs = args[:n], args[n:]
        if outs:
            kw['out'] = outs[0]
        for x in ins:
            if hasattr(x, '_spk'):
                return sparse_ufunc(name, ins)
        native = not any(_contains_float(x) for x in ins)
        if native:
            r = u(*ins, **kw)
            if isinstance(r, (np.floating, np.complexfloating)) or isinstance(r, np.ndarray) and r.dtype.kind in 'fc':
                pass        # e.g. sqrt of an integer: recompute exactly
            else:
                return r
        pandas_in = [x for x in ins if hasattr(x, 'to_numpy')]
        if pandas_in and not isinstance(pandas_in[0], np.ndarray):
            import pandas as pd
            p = pandas_in[0]
            r = ufunc_(u, '__call__', tuple(x.to_numpy() if hasattr(x, 'to_numpy') else x for x in ins), dict(kw))
            if isinstance(p, pd.Series):
                return pd.Series(list(raw(to_sarr(r))), index=p.index, dtype=object)
            return pd.DataFrame(raw(to_sarr(r)).tolist(), index=p.index, columns=p.columns, dtype=object)
        return ufunc_(u, '__call__', ins, dict(kw))
    g.__name__ = name
    g.nin = u.nin

    def red(a, axis=0, dtype=None, out=None, keepdims=False, **k):
        return ufunc_(u, 'reduce', (a,), {'axis': axis, 'keepdims': keepdims})

    def out_(a, b):
        return ufunc_(u, 'outer', (a, b), {})

    def at_(a, i, b=None):
        if isinstance(a, SArr):
            return ufunc_(u, 'at', (a, i, b), {})
        return u.at(a, i, b) if b is not None else u.at(a, i)

    def acc_(a, axis=0):
        return ufunc_(u, 'accumulate', (a,), {'axis': axis})
    g.reduce, g.outer, g.at, g.accumulate = red, out_, at_, acc_
    return g


def sparse_ufunc(name, ins):
    from . import spf
    return spf.ufunc(name, ins)


UFUNCS = ['add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'float_power', 'maximum', 'minimum', 'fmax', 'fmin',
          'floor_divide', 'remainder', 'mod', 'fmod', 'arctan2', 'hypot', 'negative', 'positive', 'absolute', 'abs', 'fabs',
          'conjugate', 'conj', 'exp', 'sqrt', 'log', 'log10', 'log2', 'expm1', 'log1p', 'cos', 'sin', 'tan', 'cosh', 'sinh',
          'tanh', 'square', 'reciprocal', 'deg2rad', 'radians', 'rad2deg', 'degrees', 'sign', 'floor', 'ceil', 'rint', 'trunc',
          'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_xor',
          'logical_not', 'invert', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'bitwise_not', 'isnan', 'isinf', 'isfinite']


def matmul(a, b, **k):
    return a @ b if hasattr(a, '_spk') or hasattr(b, '_spk') else _native_or(np.matmul, matmul_, a, b)


def _native_or(nf, sf, a, b):
    if not (_contains_float(a) or _contains_float(b)):
        return nf(a, b)
    return sf(a, b)


def dot(a, b, out=None):
    return _native_or(np.dot, dot_, a, b)


def vdot(a, b):
    return dot_(to_sarr(a).ravel().conj(), to_sarr(b).ravel())


def inner(a, b):
    return dot_(a, to_sarr(b).T)


def cross(a, b, **k):
    raise Unsupported('cross')


def tensordot(a, b, axes=2):
    a, b = to_sarr(a), to_sarr(b)
    if axes == 1:
        return dot_(a, b)
    return _unwrapped(np.tensordot)(a, b, axes)


def einsum(spec, *ops, **kw):
    """explicit contraction, generic"""
    if not any(_contains_float(o) for o in ops):
        return np.einsum(spec, *ops, **kw)
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if out is None:
        alll = ''.join(ins)
        out = ''.join(sorted(c for c in set(alll) if alll.count(c) == 1))
    arrs = [to_sarr(o) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        for c, n in zip(s, a.shape):
            dims[c] = n
    free = [c for c in dims if c not in out]
    k = 'b'
    for a in arrs:
        k = kmax(k, a._k)
    r = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*r.shape):
        env = dict(zip(out, idx))
        acc = []
        for f in itertools.product(*[range(dims[c]) for c in free]):
            env.update(zip(free, f))
            p = lift(1)
            for s, a in zip(ins, arrs):
                p = p * raw(a)[tuple(env[c] for c in s)]
            acc.append(p)
        r[idx] = cast_elem(add_elems(acc), k)
    return wrap(r, k) if r.ndim else r.item()


def real(x):
    if hasattr(x, '_spk') or isinstance(x, (SArr, Sym)):
        return x.real
    if hasattr(x, 'to_numpy'):
        x = x.to_numpy()
    if _contains_float(x):
        r = to_sarr(x).real
        return r.item() if r.ndim == 0 else r
    return np.real(x)


def imag(x):
    if hasattr(x, '_spk') or isinstance(x, (SArr, Sym)):
        return x.imag
    if hasattr(x, 'to_numpy'):
        x = x.to_numpy()
    if _contains_float(x):
        r = to_sarr(x).imag
        return r.item() if r.ndim == 0 else r
    return np.imag(x)


def angle(z, deg=False):
    if isinstance(z, Sym) or is_num(z):
        r = s_angle(lift(z))
        return r.rad2deg() if deg else r
    a = to_sarr(z)
    r = emap(s_angle, a, 'f')
    if deg:
        r = r * 180 / PI
    return r


def reduction(name):
    def g(a, axis=None, *args, **kw):
        if hasattr(a, '_spk'):
            return getattr(a, name)(axis)
        if isinstance(a, types.GeneratorType):
            a = list(a)
        kw.pop('where', None)
        kw.pop('initial', None)
        if hasattr(a, 'to_numpy'):
            if _contains_float(a):
                import pandas as pd
                if axis is not None and isinstance(a, pd.DataFrame):
                    return getattr(a, name)(axis=axis)
                a = a.to_numpy()
            else:
                return getattr(np, name)(a, axis=axis, **kw)
        if _contains_float(a):
            return getattr(to_sarr(a), name)(axis=axis, **kw)
        if name in ('mean', 'var', 'std'):
            return getattr(to_sarr(asarray(a)), name)(axis=axis, **kw)
        return getattr(np, name)(a, axis=axis, **kw)
    g.__name__ = name
    return g


def median(a, axis=None, **k):
    return percentile(a, 50, axis)


def percentile(a, q, axis=None, out=None, overwrite_input=False, interpolation='linear', keepdims=False, **k):
    """linear interpolation between order statistics, for any element order (sorting decides by path)"""
    if interpolation != 'linear':
        raise Unsupported('percentile ' + interpolation)
    a = to_sarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    qs = raw(to_sarr(q))
    o = np.moveaxis(raw(a), axis, 0)
    n = o.shape[0]

    def one(qq, col):
        s = sort(wrap(np.array(list(col) + [None], dtype=object)[:-1], a._k))
        f = lift(qq).re
        if f.op != 'c':
            raise Unsupported('symbolic percentile')
        pos = f.args / 100 * (n - 1)
        i = int(math.floor(pos))
        t = pos - i
        s = raw(s)
        return s[i] if t == 0 else s[i] + (s[i + 1] - s[i]) * lift(Fraction(t))
    res = np.empty(qs.shape + o.shape[1:], dtype=object)
    for iq in np.ndindex(*qs.shape):
        for j in np.ndindex(*o.shape[1:]):
            res[iq + j] = cast_elem(one(qs[iq], [o[(t,) + j] for t in range(n)]), 'f')
    return wrap(res, 'f') if res.ndim else res.item()


def quantile(a, q, axis=None, **k):
    return percentile(a, np.multiply(to_sarr(q), 100), axis, **k)


def sort(a, axis=-1, kind=None, order=None):
    if not _contains_float(a):
        return np.sort(a, axis)
    a = to_sarr(a).copy()
    if a.ndim == 1:
        a.sort()
        return a
    o = np.moveaxis(raw(a), axis, -1)
    for i in np.ndindex(*o.shape[:-1]):
        w = wrap(o[i].copy(), a._k)
        w.sort()
        o[i] = raw(w)
    return a


def argsort(a, axis=-1, kind=None, order=None):
    if not _contains_float(a):
        return np.argsort(a, axis, kind)
    return to_sarr(a).argsort(axis)


def unique(a, **k):
    if not _contains_float(a):
        return np.unique(a, **k)
    raise Unsupported('unique of symbolic values')


def cumsum(a, axis=None, **k):
    return to_sarr(a).cumsum(axis) if _contains_float(a) else np.cumsum(a, axis)


def diff(a, n=1, axis=-1, **k):
    if not _contains_float(a):
        return np.diff(a, n, axis)
    a = to_sarr(a)
    for _ in range(n):
        ix1, ix2 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        ix1[axis], ix2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(ix1)] - a[tuple(ix2)]
    return a


def trace(a, *args, **k):
    return to_sarr(a).trace() if _contains_float(a) else np.trace(a, *args, **k)


def clip(a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = NP.maximum(r, a_min)
    if a_max is not None:
        r = NP.minimum(r, a_max)
    return r


def fromiter(it, dtype, count=-1, **k):
    r = list(it)
    return array(r if count < 0 else r[:count], dtype=dtype)


def bmat(obj, *a, **k):
    return asmatrix(block(obj))


def compress(condition, a, axis=None, out=None):
    k = np.flatnonzero(np.asarray(condition))
    return NP.take(ravel(asarray(a)) if axis is None else a, k, axis=axis or 0)


def extract(condition, arr):
    return compress(np.ravel(condition), ravel(asarray(arr)))


def heaviside(x, y):
    return where(x < 0, 0., where(x > 0, 1., y))


def around(a, decimals=0, out=None):
    if not _contains_float(a):
        return np.around(a, decimals)
    if isinstance(a, Sym):
        return a.__round__(decimals)
    return to_sarr(a).round(decimals)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return NP.less_equal(NP.abs(NP.subtract(a, b)), NP.add(atol, NP.multiply(rtol, NP.abs(b))))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return r.all() if hasattr(r, 'all') else r


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return NP.equal(a, b).all()


def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


def isreal(x):
    return NP.equal(imag(x), 0)


def iscomplex(x):
    return NP.not_equal(imag(x), 0)


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplexobj(x):
    if isinstance(x, SArr):
        return x._k == 'c'
    if isinstance(x, Sym):
        return x.kind == 'c'
    if hasattr(x, '_spk'):
        return x._spk == 'c'
    if isinstance(x, (list, tuple)):
        return iscomplexobj(asarray(x))
    return np.iscomplexobj(x)


def shape(a):
    if hasattr(a, '_spk') or isinstance(a, np.ndarray):
        return a.shape
    if isinstance(a, (Sym, SymBool)):
        return ()
    if hasattr(a, 'shape'):
        return a.shape
    return asarray(a).shape


def size(a, axis=None):
    s = shape(a)
    if axis is not None:
        return s[axis]
    n = 1
    for x in s:
        n *= x
    return n


def ndim(a):
    return len(shape(a))


def nan_to_num(a, *x, **k):
    return a


def result_type(*a):
    k = 'b'
    nat = []
    for x in a:
        if isinstance(x, (SArr, Sym)):
            nat.append({'i': np.int64, 'f': np.float64, 'c': np.complex128, 'b': bool}[getattr(x, '_k', None) or x.kind])
        else:
            nat.append(x)
    return np.result_type(*nat)


def broadcast_to(a, sh, subok=False):
    if isinstance(a, (SArr, Sym)) or _contains_float(a):
        a = to_sarr(a)
        return wrap(np.broadcast_to(raw(a), sh).copy(), a._k)
    return np.broadcast_to(a, sh)


def broadcast_arrays(*a, **k):
    sh = np.broadcast_shapes(*[shape(x) for x in a])
    return [broadcast_to(x, sh) for x in a]


def apply_along_axis(f, axis, arr, *args, **kw):
    a = asarray(arr)
    if not isinstance(a, SArr):
        return np.apply_along_axis(f, axis, arr, *args, **kw)
    o = np.moveaxis(raw(a), axis, -1)
    res = {}
    for i in np.ndindex(*o.shape[:-1]):
        res[i] = f(wrap(o[i].copy(), a._k), *args, **kw)
    vals = to_sarr([to_sarr(res[i]) for i in np.ndindex(*o.shape[:-1])])
    v = vals.reshape(o.shape[:-1] + vals.shape[1:])
    return np.moveaxis(v, -1, axis) if vals.ndim > 1 else v


def vectorize(f, *a, **k):
    def g(*args):
        bs = broadcast_arrays(*args)
        r = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = f(*[b[i] for b in bs])
        return finish(r, to_sarr(r)._k)
    return g


def interp(x, xp, fp, **k):
    from . import spf
    return spf.interp_linear(x, xp, fp)


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = to_sarr(m)
    if not rowvar:
        m = m.T
    n = m.shape[1]
    d = m - m.mean(axis=1, keepdims=True)
    return (d @ d.conj().T) / (n - (0 if bias else 1) if ddof is None else n - ddof)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return NP.mean(a, axis)
    w = to_sarr(weights)
    return NP.sum(NP.multiply(a, w), axis) / NP.sum(w)


def piecewise(*a):
    raise Unsupported('piecewise')


def nonzero(a):
    return asarray(a).nonzero()


def argwhere(a):
    return np.transpose(nonzero(a))


def flatnonzero(a):
    return nonzero(ravel(a))[0]


def count_nonzero(a, axis=None, **k):
    if isinstance(a, SArr):
        return NP.sum(NP.not_equal(a, 0), axis=axis)
    return np.count_nonzero(a, axis)


def polyval(p, x):
    r = lift(0)
    for c in to_sarr(p):
        r = NP.add(NP.multiply(r, x), c)
    return r


def iterable_scalar(x):
    return x


def asmatrix(x, dtype=None):
    if _contains_float(x):
        return smat(to_sarr(x))
    return np.asmatrix(x, dtype)


def intersect1d(a, b, **k):
    return np.intersect1d(np.asarray(a), np.asarray(b), **k)


def isin(a, b, **k):
    if _contains_float(a) or _contains_float(b):
        a, b = to_sarr(a), list(raw(to_sarr(b)).ravel())
        r = emap(lambda e: mkbool(tm.bor(*[tobool(s_eq(lift(e), lift(x))) for x in b])), a, 'b')
        return native_bool(r)
    return np.isin(a, b, **k)


def float_type(np_type, kind):
    """np.float64(x) etc: keep symbolic values"""
    class M(type):
        def __call__(cls, x=0, *a):
            if isinstance(x, SArr) and x.ndim:
                return x.astype(kind)
            if isinstance(x, SArr):
                x = raw(x).item()
            if isinstance(x, (Sym, SymBool)):
                return cast_elem(x, kind)
            if isinstance(x, (np.ndarray, list, tuple)):
                return array(x, dtype=np_type)
            return np_type(x)

        def __instancecheck__(cls, x):
            return isinstance(x, np_type) or isinstance(x, Sym) and not x.py and x.kind == kind

        def __subclasscheck__(cls, c):
            return issubclass(c, np_type)
    return np_type


# ------------------------------------------------------------------------------------------------ linalg
DEFS = tm.DEFS
_memo = {}


def reset():
    _memo.clear()
    DEFS.clear()
    tm.AXIOMS.clear()
    del SYSTEMS[:]
    STORE.clear()
    RNG.reset()
    FS.reset()


def _ids(a):
    return (a.shape, a._k) + tuple((e.re.id, e.im.id) for e in raw(a).ravel())


def _det(rows):
    n = len(rows)
    if n == 1:
        return rows[0][0]
    if n == 2:
        return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
    r = lift(0)
    for j in range(n):
        if rows[0][j].re is ZERO and rows[0][j].im is ZERO:
            continue
        m = [[row[c] for c in range(n) if c != j] for row in rows[1:]]
        t = rows[0][j] * _det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


def exact_inverse_const(a):
    """Gauss-Jordan on constant entries"""
    n = a.shape[0]
    M = [[lift(e) for e in row] + [lift(1.0 if i == j else 0.0) for j in range(n)] for i, row in enumerate(raw(a).tolist())]
    for c in range(n):
        p = next((r for r in range(c, n) if not (M[r][c].re is ZERO and M[r][c].im is ZERO)), None)
        if p is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c and not (M[r][c].re is ZERO and M[r][c].im is ZERO):
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[i, j] = cast_elem(M[i][n + j], kmax(a._k, 'f'))
    return wrap(o, kmax(a._k, 'f'))


INV_LIMIT = [3]


def _components(pattern):
    """block-diagonal structure: connected components of the bipartite nonzero pattern"""
    n = pattern.shape[0]
    seen = [-1] * n
    comps = []
    cols = [-1] * n
    adj = pattern
    for r0 in range(n):
        if seen[r0] >= 0:
            continue
        comp_r, comp_c, todo = [r0], [], [('r', r0)]
        seen[r0] = len(comps)
        while todo:
            t, i = todo.pop()
            if t == 'r':
                for c in np.nonzero(adj[i])[0]:
                    if cols[c] < 0:
                        cols[c] = len(comps)
                        comp_c.append(int(c))
                        todo.append(('c', int(c)))
            else:
                for r in np.nonzero(adj[:, i])[0]:
                    if seen[r] < 0:
                        seen[r] = len(comps)
                        comp_r.append(int(r))
                        todo.append(('r', int(r)))
        comps.append((sorted(comp_r), sorted(comp_c)))
    return comps


def inv(a):
    a0 = a
    if hasattr(a, '_spk'):
        raise np.linalg.LinAlgError('0-dimensional array given. Array must be at least two-dimensional')
    mat = isinstance(a, np.matrix)
    a = to_sarr(a)
    if a.ndim > 2:
        res = None
        for i in np.ndindex(*a.shape[:-2]):
            m = raw(inv(wrap(raw(a)[i], a._k)))
            if res is None:
                res = np.empty(a.shape, dtype=object)
            res[i] = m
        return wrap(res, kmax(a._k, 'f'))
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    k = kmax(a._k, 'f')
    a = wrap(raw(a), a._k)
    n = a.shape[0]
    if n == 0:
        return a
    key = ('inv',) + _ids(a)
    if key in _memo:
        r = _memo[key].copy()
        return smat(r) if mat else r
    rows = [[lift(e) for e in row] for row in raw(a).tolist()]
    if all(e.is_const for row in rows for e in row):
        r = exact_inverse_const(a)
    else:
        pat = np.array([[not (e.re is ZERO and e.im is ZERO) for e in row] for row in rows])
        comps = _components(pat)
        if any(len(r_) != len(c_) for r_, c_ in comps):
            raise np.linalg.LinAlgError('Singular matrix')
        if len(comps) > 1:
            o = np.empty((n, n), dtype=object)
            o.fill(cast_elem(0, k))
            for rr, cc in comps:
                sub = wrap(raw(a)[np.ix_(rr, cc)], a._k)
                iv = raw(inv(sub))
                for i, c in enumerate(cc):
                    for j, r_ in enumerate(rr):
                        o[c, r_] = iv[i, j]
            r = wrap(o, k)
        elif n <= INV_LIMIT[0]:
            d = _det(rows)
            if d.re is ZERO and d.im is ZERO:
                raise np.linalg.LinAlgError('Singular matrix')
            o = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    if n == 1:
                        cof = lift(1)
                    else:
                        m = [[rows[r_][c] for c in range(n) if c != i] for r_ in range(n) if r_ != j]
                        cof = _det(m)
                        if (i + j) % 2:
                            cof = -cof
                    o[i, j] = cast_elem(cof / d, k)
            r = wrap(o, k)
        else:
            r = fresh_matrix('inv', n, n, k, lambda A: np.linalg.inv(A), a)
            I = wrap(raw(to_sarr(np.eye(n))), 'f')
            define(r, equations(matmul_(a, r), I) + equations(matmul_(r, a), I))
    _memo[key] = r
    r = r.copy()
    return smat(r) if mat else r


_fresh = itertools.count()


def numeric(a, env):
    o = np.empty(a.shape, dtype=complex)
    memo = {}
    for i in np.ndindex(*a.shape):
        e = lift(raw(a)[i])
        o[i] = complex(float(tm.evaluate(e.re, env, memo)), float(tm.evaluate(e.im, env, memo)))
    return o if a._k == 'c' else o.real


def fresh_matrix(tag, n, m, k, f, a):
    """an n x m matrix of fresh variables, evaluated numerically as f(a)"""
    nm = '$%s%d' % (tag, len(_memo))
    o = np.empty((n, m), dtype=object)
    cache = []

    def val(env, i, j, part):
        if not cache or cache[0] is not env:
            args = [numeric(x, env) for x in a] if isinstance(a, tuple) else [numeric(a, env)]
            cache[:] = [env, f(*args)]
        v = cache[1][i, j]
        return v.imag if part else (v.real if hasattr(v, 'real') else v)
    for i in range(n):
        for j in range(m):
            re = tm.var('%s_%d_%d' % (nm, i, j))
            DEFS['%s_%d_%d' % (nm, i, j)] = (lambda env, i=i, j=j: val(env, i, j, 0))
            im = ZERO
            if k == 'c':
                im = tm.var('%s_%d_%d_im' % (nm, i, j))
                DEFS['%s_%d_%d_im' % (nm, i, j)] = (lambda env, i=i, j=j: val(env, i, j, 1))
            o[i, j] = Sym(re, im, k)
    return wrap(o, k)


def define(fresh, conds):
    """attach the conditions that define the fresh values of an array"""
    for e in raw(fresh).ravel().tolist():
        for t in (e.re, e.im):
            if t is not ZERO:
                tm.AXIOMS[t.args[0]] = conds


def equations(P, Q):
    """P == Q entry by entry"""
    r = []
    for x, y in zip(raw(P).ravel().tolist(), raw(Q).ravel().tolist()):
        d = lift(x) - lift(y)
        r += [tm.cmp('==', t) for t in (d.re, d.im) if t is not ZERO]
    return r


SYSTEMS = []


def _same_system(a, B):
    """the solution of an earlier system that is the same one, written differently (decided by the solver)"""
    from . import smt, explore
    cand = [s for s in SYSTEMS if s[0].shape == a.shape and s[1].shape == B.shape]
    if not cand or explore.CUR[0] is None:
        return None
    flat = lambda M: [t for e in raw(M).ravel().tolist() for t in (lift(e).re, lift(e).im)]
    new = flat(a) + flat(B)
    for a2, B2, x2 in cand:
        old = flat(a2) + flat(B2)
        ts = [t for t in new + old]
        fv = [n for n in tm.free_vars(ts + tm.axioms(ts)) if n not in DEFS and n != '$pi']
        ok = True
        for trial in range(2):
            env = {n: math.sin(7.3 * (i + 1) + 2.1 * trial + 0.4) + 1.5 for i, n in enumerate(sorted(fv))}
            memo = {}
            try:
                for t, u in zip(new, old):
                    if t is not u:
                        p, q = float(tm.evaluate(t, env, memo)), float(tm.evaluate(u, env, memo))
                        if abs(p - q) > 1e-7 * (1 + abs(p) + abs(q)):
                            ok = False
                            break
            except (tm.EvalError, OverflowError, TypeError, ZeroDivisionError, np.linalg.LinAlgError):
                ok = False
            if not ok:
                break
        if not ok:
            continue
        if all(t is u or smt.solve([tm.bnot(tm.cmp('==', tm.sub(t, u)))], timeout=5).status == 'unsat' for t, u in zip(new, old)):
            return x2
    return None


def solve(a, b):
    """the solution of a regular linear system: fresh values defined by a x = b (closed forms for constant or 1x1 systems)"""
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        if a.ndim > 2:
            raise Unsupported('stacked solve')
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    a = wrap(raw(a), a._k)
    b = wrap(raw(b), b._k)
    n = a.shape[0]
    if b.ndim not in (1, 2) or b.shape[0] != n:
        raise ValueError('solve: mismatch in the core dimension (%d, %d)' % (b.shape[0], n))
    B = b.reshape((n, 1)) if b.ndim == 1 else b
    if n <= 1 or all(lift(e).is_const for e in raw(a).ravel().tolist()) or HOOKS.get('solve') == 'closed':
        x = matmul_(inv(a), B)
    else:
        key = ('solve',) + _ids(a) + _ids(B)
        if key not in _memo:
            same = _same_system(a, B)
            if same is not None:
                _memo[key] = same
        if key not in _memo:
            k = kmax(kmax(a._k, B._k), 'f')
            x = fresh_matrix('x', n, B.shape[1], k, lambda A, C: np.linalg.solve(A, C), (a, B))
            define(x, equations(matmul_(a, x), B))
            _memo[key] = x
            SYSTEMS.append((a, B, x))
        x = _memo[key].copy()
    return x.ravel() if b.ndim == 1 else x


def pinv(a, *args, **kw):
    """full column rank: (A^H A)^-1 A^H (square: the inverse); full row rank: A^H (A A^H)^-1"""
    mat = isinstance(a, np.matrix)
    a = to_sarr(a)
    a = wrap(raw(a), a._k)
    m, n = a.shape
    ah = a.conj().T
    # all-zero rows/columns have zero pseudo-inverse columns/rows
    zr = [i for i in range(m) if all(e.re is ZERO and e.im is ZERO for e in raw(a)[i])]
    zc = [j for j in range(n) if all(e.re is ZERO and e.im is ZERO for e in raw(a)[:, j])]
    if zr or zc:
        kr = [i for i in range(m) if i not in zr]
        kc = [j for j in range(n) if j not in zc]
        r = szeros((n, m), kmax(a._k, 'f'))
        if kr and kc:
            sub = pinv(wrap(raw(a)[np.ix_(kr, kc)], a._k))
            raw(r)[np.ix_(kc, kr)] = raw(sub)
        return smat(r) if mat else r
    if m == n:
        r = inv(a)
    elif m > n:
        r = matmul_(inv(matmul_(ah, a)), ah)
    else:
        r = matmul_(ah, inv(matmul_(a, ah)))
    return smat(r) if mat else r


def norm(x, ord=None, axis=None, keepdims=False):
    if hasattr(x, '_spk'):
        x = x.toarray()
    a = to_sarr(x)
    if axis is None:
        if ord is None or ord in ('f', 'fro') or ord == 2 and a.ndim == 1:
            return emap(lambda e: (e * e.conjugate()).real, a, 'f').sum().sqrt()
        if ord == 1 and a.ndim == 1:
            return emap(s_abs, a, 'f').sum()
        if ord == math.inf and a.ndim == 1:
            return emap(s_abs, a, 'f').max()
        if ord == 1 and a.ndim == 2:
            return emap(s_abs, a, 'f').sum(axis=0).max()
        raise Unsupported('norm ord=%r of a matrix' % (ord,))
    if ord in (None, 2):
        s = emap(lambda e: (e * e.conjugate()).real, a, 'f').sum(axis=axis, keepdims=keepdims)
        return emap(lambda e: e.sqrt(), s, 'f')
    if ord == 1:
        return emap(s_abs, a, 'f').sum(axis=axis, keepdims=keepdims)
    raise Unsupported('norm')


def det(a):
    return _det([[lift(e) for e in row] for row in raw(to_sarr(a)).tolist()])


SVD = {}


def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    """uninterpreted: fresh factors, one set per argument; contract facts are asserted by the harness that needs them"""
    a = to_sarr(a)
    m, n = a.shape
    p = builtins.min(m, n)
    key = ('svd', full_matrices) + _ids(a)
    if key not in _memo:
        ck = {}

        def get(A):
            return np.linalg.svd(A, full_matrices=full_matrices)
        u = fresh_matrix('svdu', m, m if full_matrices else p, a._k, lambda A: get(A)[0], a)
        _memo[('x', len(_memo))] = None
        s = fresh_matrix('svds', p, 1, 'f', lambda A: get(A)[1].reshape(-1, 1), a).ravel()
        _memo[('x', len(_memo))] = None
        vh = fresh_matrix('svdv', n if full_matrices else p, n, a._k, lambda A: get(A)[2], a)
        _memo[key] = (u, s, vh)
        SVD[key] = (a, u, s, vh)
    u, s, vh = _memo[key]
    if not compute_uv:
        return s.copy()
    return u.copy(), s.copy(), vh.copy()


def cholesky(a):
    a = to_sarr(a)
    n = a.shape[0]
    L = szeros((n, n), a._k)
    for i in range(n):
        for j in range(i + 1):
            s = lift(raw(a)[i, j])
            for q in range(j):
                s = s - L[i, q] * L[j, q].conjugate()
            raw(L)[i, j] = s.sqrt() if i == j else s / L[j, j]
    return L


def eigvals(a):
    raise Unsupported('eigvals')


def lstsq(a, b, rcond=None):
    return pinv(a) @ b, None, None, None


def matrix_rank(a, *k, **kw):
    raise Unsupported('matrix_rank')


def eig_hook(a):
    raise Unsupported('eig')


class _Linalg(object):
    LinAlgError = np.linalg.LinAlgError
    inv = staticmethod(inv)
    pinv = staticmethod(pinv)
    solve = staticmethod(solve)
    norm = staticmethod(norm)
    det = staticmethod(det)
    svd = staticmethod(svd)
    cholesky = staticmethod(cholesky)
    lstsq = staticmethod(lstsq)

    @staticmethod
    def eig(a):
        return HOOKS['eig'](a) if 'eig' in HOOKS else eigvals(a)

    @staticmethod
    def eigvals(a):
        return HOOKS['eigvals'](a) if 'eigvals' in HOOKS else eigvals(a)

    @staticmethod
    def eigh(a, *k):
        return HOOKS['eigh'](a) if 'eigh' in HOOKS else eigvals(a)

    @staticmethod
    def eigvalsh(a, *k):
        return HOOKS['eigvalsh'](a) if 'eigvalsh' in HOOKS else eigvals(a)

    @staticmethod
    def multi_dot(l):
        r = l[0]
        for x in l[1:]:
            r = dot(r, x)
        return r

    @staticmethod
    def matrix_power(a, n):
        r = eye(np.shape(a)[0])
        for _ in range(n):
            r = dot(r, a)
        return r

    def __getattr__(self, n):
        raise Unsupported('np.linalg.' + n)


HOOKS = {}


# ------------------------------------------------------------------------------------------------ random
class _Rng(object):
    """The global generator: draws are arbitrary values named by (seed, position)"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.seed_ = 'init'
        self.pos = 0
        self.draws = []
        self.int_mode = 'sym'

    def seed(self, s=None):
        if isinstance(s, Sym):
            s = s.const_value() if s.is_const else repr(s)
        self.seed_ = s
        self.pos = 0

    def _names(self, kind, n):
        r = ['%s[%s,%d]' % (kind, self.seed_, self.pos + i) for i in range(n)]
        self.pos += n
        return r

    def std(self, shape):
        n = int(np.prod(shape)) if shape != () else 1
        names = self._names('xi', n)
        o = np.empty(shape, dtype=object)
        if shape == ():
            self.draws.append(names[0])
            return Sym(tm.var(names[0]), ZERO, 'f')
        f = o.reshape(-1)
        for i in range(n):
            self.draws.append(names[i])
            f[i] = Sym(tm.var(names[i]), ZERO, 'f')
        return wrap(o, 'f')


RNG = _Rng()


def _rshape(size, *ps):
    if size is None:
        return np.broadcast_shapes(*[shape(p) for p in ps]) if ps else ()
    return (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(x) for x in size)


class _Random(object):
    @staticmethod
    def seed(s=None):
        RNG.seed(s)

    @staticmethod
    def normal(loc=0.0, scale=1.0, size=None):
        sh = _rshape(size, loc, scale)
        xi = RNG.std(sh)
        return NP.add(loc, NP.multiply(scale, xi))

    @staticmethod
    def standard_normal(size=None):
        return RNG.std(_rshape(size))

    @staticmethod
    def randn(*s):
        return RNG.std(tuple(int(x) for x in s))

    @staticmethod
    def rand(*s):
        return _Random.random(tuple(int(x) for x in s))

    @staticmethod
    def random(size=None):
        sh = _rshape(size)
        r = RNG.std(sh)
        for e in (raw(r).ravel() if sh != () else [r]):
            explore.cur().assume(tm.band(tm.cmp('<=', tm.neg(e.re)), tm.cmp('<', tm.sub(e.re, ONE))))
        return r

    random_sample = random

    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        return low + (lift(high) - low) * _Random.random(size)

    @staticmethod
    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        sh = _rshape(size, low, high)
        n = int(np.prod(sh)) if sh != () else 1
        names = RNG._names('ri', n)
        lo = np.broadcast_to(np.asarray(low, dtype=object), sh).ravel() if sh != () else [low]
        hi = np.broadcast_to(np.asarray(high, dtype=object), sh).ravel() if sh != () else [high]
        vals = []
        for nm, l, h in zip(names, lo, hi):
            v = tm.var(nm, 'Int')
            l, h = lift(l), lift(h)
            explore.cur().assume(tm.band(tm.cmp('<=', tm.sub(l.re, v)), tm.cmp('<', tm.sub(v, h.re))))
            RNG.draws.append(nm)
            vals.append(Sym(v, ZERO, 'i'))
        if sh == ():
            return vals[0]
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = vals[i]
        return wrap(o.reshape(sh), 'i')

    @staticmethod
    def choice(a, size=None, replace=True, p=None):
        a = asarray(a) if not isinstance(a, (int, np.integer)) else np.arange(a)
        i = _Random.randint(0, len(a), size)
        if not replace:
            raise Unsupported('choice without replacement')
        return a[i]

    @staticmethod
    def get_state(*a):
        return (RNG.seed_, RNG.pos)

    @staticmethod
    def set_state(s):
        RNG.seed_, RNG.pos = s

    @staticmethod
    def multivariate_normal(mean, cov, size=None, **k):
        mean = to_sarr(mean)
        L = cholesky(cov)
        sh = _rshape(size)
        xi = RNG.std(sh + mean.shape)
        return NP.add(mean, matmul_(xi, L.T))

    @staticmethod
    def default_rng(seed=None):
        g = _Rng()
        g.seed_ = 'gen%s' % seed

        class G(object):
            @staticmethod
            def normal(loc=0.0, scale=1.0, size=None):
                return NP.add(loc, NP.multiply(scale, g.std(_rshape(size, loc, scale))))

            @staticmethod
            def standard_normal(size=None):
                return g.std(_rshape(size))
        return G()

    RandomState = default_rng

    def __getattr__(self, n):
        raise Unsupported('np.random.' + n)


# ------------------------------------------------------------------------------------------------ files
STORE = {}


class _FS(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.ops = []


FS = _FS()


def _fname(f):
    s = str(f)
    import os
    return os.path.abspath(s)


class NpzLook(dict):
    @property
    def files(self):
        return list(self.keys())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _freeze(v):
    if isinstance(v, SArr):
        return v.copy()
    if _contains_float(v) or isinstance(v, (list, tuple)):
        return array(v)
    return np.array(v) if not isinstance(v, Sym) else to_sarr(v)


def savez(file, *args, **kw):
    n = _fname(file)
    if not n.endswith('.npz'):
        n += '.npz'
    d = {'arr_%d' % i: _freeze(a) for i, a in enumerate(args)}
    d.update({k: _freeze(v) for k, v in kw.items()})
    STORE[n] = d
    FS.ops.append(('savez', n, tuple(d)))


def save(file, a):
    n = _fname(file)
    if not n.endswith('.npy'):
        n += '.npy'
    STORE[n] = _freeze(a)


def load(file, mmap_mode=None, allow_pickle=False, **k):
    n = _fname(file)
    if n in STORE:
        d = STORE[n]
        FS.ops.append(('load', n))
        if isinstance(d, dict):
            if not allow_pickle and any(isinstance(v, np.ndarray) and not isinstance(v, SArr) and v.dtype == OBJ for v in d.values()):
                raise ValueError('Object arrays cannot be loaded when allow_pickle=False')
            return NpzLook({k: v.copy() for k, v in d.items()})
        return d.copy()
    raise FileNotFoundError(2, 'No such file or directory: %r' % n)


# ------------------------------------------------------------------------------------------------ module object
class NumpyFacade(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            def u(*a, **k):
                if any(_contains_float(x) for x in a):
                    raise Unsupported('ufunc ' + name)
                return v(*a, **k)
            u.__name__ = name
            return u
        if callable(v) and not isinstance(v, type) and not isinstance(v, types.ModuleType):
            def g(*a, **k):
                if any(_contains_float(x) for x in a):
                    return generic(v, a, k)
                return v(*a, **k)
            g.__name__ = name
            return g
        return v


STRUCT1 = ['squeeze', 'expand_dims', 'moveaxis', 'swapaxes', 'rollaxis', 'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud',
           'rot90', 'take', 'take_along_axis', 'resize', 'trim_zeros', 'ediff1d']
STRUCTSEQ = ['atleast_1d', 'atleast_2d', 'atleast_3d']
NP = NumpyFacade('numpy')


def _install():
    g = globals()
    for n in UFUNCS:
        setattr(NP, n, _uf(n))
    for n in STRUCT1:
        setattr(NP, n, structural(getattr(np, n)))

    def atl(n):
        f = structural(getattr(np, n))

        def h(*a):
            r = [x if isinstance(x, np.ndarray) and x.ndim >= int(n[-2]) else f(x) for x in a]
            return r[0] if len(r) == 1 else r
        return h
    for n in STRUCTSEQ:
        setattr(NP, n, atl(n))
    for n in ['sum', 'prod', 'mean', 'std', 'var', 'max', 'min', 'amax', 'amin', 'ptp', 'all', 'any', 'argmax', 'argmin']:
        setattr(NP, n, reduction({'amax': 'max', 'amin': 'min'}.get(n, n)))
    for n in ['nansum', 'nanmean', 'nanmax', 'nanmin', 'nanstd', 'nanvar']:
        setattr(NP, n, reduction(n[3:]))
    for n in ['array', 'asarray', 'asanyarray', 'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like',
              'eye', 'identity', 'arange', 'linspace', 'block', 'diag', 'diagflat', 'diagonal', 'kron', 'outer', 'tril', 'triu', 'where',
              'delete', 'insert', 'append', 'ravel', 'reshape', 'transpose', 'copy', 'concatenate', 'hstack', 'vstack', 'dstack',
              'stack', 'column_stack', 'row_stack', 'split', 'hsplit', 'vsplit', 'array_split', 'matmul', 'dot', 'vdot', 'inner', 'tensordot',
              'einsum', 'real', 'imag', 'angle', 'median', 'percentile', 'quantile', 'sort', 'argsort', 'unique', 'cumsum', 'diff', 'trace',
              'clip', 'around', 'isclose', 'allclose', 'array_equal', 'isscalar', 'isreal', 'iscomplex', 'isrealobj', 'iscomplexobj',
              'shape', 'size', 'ndim', 'nan_to_num', 'result_type', 'broadcast_to', 'broadcast_arrays', 'apply_along_axis', 'vectorize',
              'interp', 'cov', 'average', 'nonzero', 'argwhere', 'flatnonzero', 'count_nonzero', 'polyval', 'asmatrix', 'isin', 'in1d',
              'intersect1d', 'fromiter', 'bmat', 'heaviside', 'compress', 'extract', 'savez', 'save', 'load']:
        if n in g:
            setattr(NP, n, g[n])
    NP.round = NP.round_ = around
    NP.ascontiguousarray = NP.asfarray = asarray
    NP.mat = asmatrix
    NP.in1d = isin
    NP.savez_compressed = savez
    NP.linalg = _Linalg()
    NP.random = _Random()
    NP.pi = PI
    NP.e = Sym(tm.exp(ONE), ZERO, 'f', True)
    NP.float = float
    NP.int = int
    NP.complex = complex
    NP.bool = bool
    NP.object = object
    NP.str = str
    NP.set_printoptions = lambda *a, **k: None
    NP.seterr = lambda *a, **k: {}


_install()

_BYNAME = {}


def generic(func, args, kwargs):
    """a numpy function with no symbolic version: run its python implementation, whose inner calls dispatch again"""
    w = getattr(func, '__wrapped__', None)
    if w is None:
        raise Unsupported('numpy.%s' % getattr(func, '__name__', func))
    return w(*args, **kwargs)


def dispatch(func, args, kwargs):
    """__array_function__ of SArr"""
    n = getattr(func, '__name__', '')
    mod = getattr(func, '__module__', '')
    if mod.startswith('numpy.linalg'):
        if hasattr(_Linalg, n):
            return getattr(NP.linalg, n)(*args, **kwargs)
        raise Unsupported('np.linalg.' + n)
    v = NP.__dict__.get(n)
    if v is not None and callable(v):
        return v(*args, **kwargs)
    if n in ('broadcast_arrays', 'shape', 'ndim', 'size'):
        return globals()[n](*args, **kwargs)
    if n in ('may_share_memory', 'shares_memory'):
        return func(*[raw(a) if isinstance(a, SArr) else a for a in args])
    if n in ('array_repr', 'array_str', 'array2string'):
        return repr(args[0])
    if n == 'copyto':
        args[0][...] = args[1]
        return None
    if n == 'can_cast':
        return func(*[a.dtype if isinstance(a, SArr) else a for a in args], **kwargs)
    if n == 'result_type':
        return result_type(*args)
    return generic(func, args, kwargs)


class nd_context(object):
    pass
