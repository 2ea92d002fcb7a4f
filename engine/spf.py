"""scipy facade: sparse matrices (triplets of exact symbolic values), scipy.linalg, interpolation."""
import types
from fractions import Fraction

import numpy as np
import scipy.sparse as real_sp

from . import terms as tm
from .terms import Unsupported, ZERO
from .sym import Sym, SymBool, lift, kmax, is_num, mkbool, tobool, s_lt, s_le
from .arr import (SArr, SMat, to_sarr, zeros as szeros, cast_elem, kind_of_dtype, wrap, raw, smat, matmul_, DT, emap,
                  conv_key, native_bool, is_zero, add_elems)
from . import npf


def _dense(x):
    if isinstance(x, spmatrix):
        return x.toarray()
    if real_sp.issparse(x):
        return to_sarr(x.toarray())
    return to_sarr(x)


class spmatrix(object):
    __array_priority__ = 10.1
    __array_ufunc__ = None
    format = 'csr'
    ndim = 2

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        k = kind_of_dtype(dtype) if dtype is not None else None
        if real_sp.issparse(arg1):
            arg1 = csr_matrix(arg1.toarray())
        if isinstance(arg1, spmatrix):
            self._set(arg1.data.copy(), arg1._r.copy(), arg1._c.copy(), arg1.shape)
        elif isinstance(arg1, tuple) and len(arg1) == 2 and all(isinstance(e, (int, np.integer)) for e in arg1):
            self._set(szeros((0,), k or 'f'), np.zeros(0, int), np.zeros(0, int), tuple(int(e) for e in arg1))
        elif isinstance(arg1, tuple) and len(arg1) == 2:
            v, (r, c) = arg1
            v = to_sarr(v).ravel()
            r, c = np.asarray(conv_key(r) if isinstance(r, SArr) else r, dtype=int).ravel(), \
                np.asarray(conv_key(c) if isinstance(c, SArr) else c, dtype=int).ravel()
            if not len(v) == len(r) == len(c):
                raise ValueError('row, column, and data array must all be the same length')
            if shape is None:
                shape = (int(r.max()) + 1, int(c.max()) + 1)
            if len(r) and (r.max() >= shape[0] or r.min() < 0):
                raise ValueError('row index exceeds matrix dimensions')
            if len(c) and (c.max() >= shape[1] or c.min() < 0):
                raise ValueError('column index exceeds matrix dimensions')
            self._set(v.copy(), r, c, tuple(int(e) for e in shape))
        elif isinstance(arg1, tuple) and len(arg1) == 3:
            data, indices, indptr = arg1
            data = to_sarr(data).ravel()
            indptr = np.asarray(indptr, dtype=int)
            major = np.repeat(np.arange(len(indptr) - 1), np.diff(indptr))
            minor = np.asarray(indices, dtype=int)
            r, c = (major, minor) if self.format == 'csr' else (minor, major)
            if shape is None:
                shape = (len(indptr) - 1, int(minor.max()) + 1) if self.format == 'csr' else (int(minor.max()) + 1, len(indptr) - 1)
            self._set(data.copy(), r, c, shape)
        else:
            a = to_sarr(arg1)
            a = wrap(raw(a), a._k)
            if a.ndim > 2:
                raise TypeError('expected dimension <= 2 array or matrix')
            if a.ndim < 2:
                a = a.reshape(1, -1)
            self._from_dense(a)
            if shape is not None and tuple(shape) != self.shape:
                raise ValueError('inconsistent shapes')
        if k is not None and k != self.data._k:
            self.data = to_sarr(self.data.astype(k))
        self._canon()

    def _set(self, v, r, c, shape):
        self.data, self._r, self._c, self.shape = v, r, c, shape

    def _from_dense(self, a):
        r, c, v = [], [], []
        o = raw(a)
        cm = self.format == 'csc'
        for i, j in ((i, j) for j in range(a.shape[1]) for i in range(a.shape[0])) if cm else np.ndindex(*a.shape):
            if not is_zero(o[i, j]):
                r.append(i)
                c.append(j)
                v.append(o[i, j])
        d = np.empty(len(v), dtype=object)
        for i, e in enumerate(v):
            d[i] = e
        self._set(wrap(d, a._k), np.array(r, dtype=int), np.array(c, dtype=int), a.shape)

    def _canon(self):
        """csr/csc: sum duplicates and order"""
        if self.format not in ('csr', 'csc'):
            return
        acc = {}
        for i, (r, c) in enumerate(zip(self._r.tolist(), self._c.tolist())):
            acc.setdefault((r, c), []).append(raw(self.data)[i])
        keys = sorted(acc, key=(lambda t: t) if self.format == 'csr' else (lambda t: (t[1], t[0])))
        d = np.empty(len(keys), dtype=object)
        for i, k in enumerate(keys):
            d[i] = acc[k][0] if len(acc[k]) == 1 else cast_elem(add_elems(acc[k]), self.data._k)
        self._set(wrap(d, self.data._k), np.array([k[0] for k in keys], dtype=int), np.array([k[1] for k in keys], dtype=int),
                  self.shape)

    @classmethod
    def _mk(cls, dense):
        return cls(dense)

    # -------------------------------------------------------------- look
    @property
    def _spk(self):
        return self.data._k if isinstance(self.data, SArr) else 'f'

    @property
    def dtype(self):
        return DT[self._spk]

    @property
    def nnz(self):
        return len(self.data)

    def getnnz(self, axis=None):
        return self.nnz

    def count_nonzero(self):
        return self.nnz

    @property
    def row(self):
        return self._r.astype(np.int32)

    @property
    def col(self):
        return self._c.astype(np.int32)

    @property
    def indices(self):
        return (self._c if self.format == 'csr' else self._r).astype(np.int32)

    @property
    def indptr(self):
        n = self.shape[0] if self.format == 'csr' else self.shape[1]
        m = self._r if self.format == 'csr' else self._c
        return np.concatenate([[0], np.cumsum(np.bincount(m, minlength=n))]).astype(np.int32)

    def toarray(self, order=None, out=None):
        a = szeros(self.shape, self._spk)
        o = raw(a)
        for i, (r, c) in enumerate(zip(self._r.tolist(), self._c.tolist())):
            e = raw(self.data)[i]
            o[r, c] = e if is_zero(o[r, c]) else cast_elem(lift(o[r, c]) + lift(e), self._spk)
        return a

    def todense(self, *a, **k):
        return smat(self.toarray())

    @property
    def A(self):
        return self.toarray()

    def get(self, *a, **k):
        return self

    def copy(self):
        return type(self)(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def _to(self, cls, copy=False):
        return cls(self) if type(self) is not cls or copy else self

    def tocsr(self, copy=False):
        return self._to(csr_matrix)

    def tocsc(self, copy=False):
        return self._to(csc_matrix)

    def tocoo(self, copy=False):
        return self._to(coo_matrix)

    def todia(self, copy=False):
        return self._to(dia_matrix)

    def tolil(self, copy=False):
        return self._to(lil_matrix)

    def tobsr(self, *a, **k):
        return self._to(bsr_matrix)

    def todok(self, copy=False):
        return self._to(dok_matrix)

    def asformat(self, f, copy=False):
        if f is None or f == self.format:
            return self.copy() if copy else self
        return self._to(CLASSES[f])

    def astype(self, dt, *a, **k):
        r = self.copy()
        d = r.data.astype(dt)
        r.data = to_sarr(d)
        return r

    def _map(self, f, k):
        r = self.copy()
        r.data = emap(f, self.data, k)
        return r

    @property
    def real(self):
        return self._map(lambda e: e.real, 'f' if self._spk == 'c' else self._spk)

    @property
    def imag(self):
        return self._map(lambda e: lift(e).imag, 'f' if self._spk == 'c' else self._spk)

    def conj(self, copy=True):
        return self._map(lambda e: e.conjugate(), self._spk)

    conjugate = conj

    def __abs__(self):
        return self._map(lambda e: abs(e), 'f' if self._spk == 'c' else self._spk)

    def __neg__(self):
        return self._map(lambda e: -e, self._spk)

    def __round__(self, n=0):
        raise Unsupported('round sparse')

    def sqrt(self):
        return self._map(lambda e: e.sqrt(), 'f')

    def transpose(self, axes=None, copy=False):
        f = {'csr': 'csc', 'csc': 'csr'}.get(self.format, self.format)
        return CLASSES[f]((self.data, (self._c, self._r)), shape=(self.shape[1], self.shape[0]))

    @property
    def T(self):
        return self.transpose()

    def getH(self):
        return self.conj().T

    H = property(getH)

    def diagonal(self, k=0):
        return self.toarray().diagonal(k).copy()

    def setdiag(self, values, k=0):
        a = self.toarray()
        n = min(self.shape[0] - max(-k, 0), self.shape[1] - max(k, 0))
        v = to_sarr(values)
        for i in range(n):
            a[i + max(-k, 0), i + max(k, 0)] = raw(v)[i] if v.ndim else raw(v).item()
        self._from_dense(a)

    def trace(self, offset=0):
        return self.diagonal(offset).sum()

    def sum(self, axis=None, dtype=None, out=None):
        r = smat(self.toarray()).sum(axis)
        return r

    def mean(self, axis=None, dtype=None, out=None):
        return smat(self.toarray()).mean(axis)

    def max(self, axis=None, out=None):
        return self.toarray().max(axis)

    def min(self, axis=None, out=None):
        return self.toarray().min(axis)

    def nonzero(self):
        return self._r.copy(), self._c.copy()

    def eliminate_zeros(self):
        pass

    def sum_duplicates(self):
        pass

    def sort_indices(self):
        pass

    def getrow(self, i):
        return self.tocsr()[i, :]

    def getcol(self, i):
        return self.tocsc()[:, i]

    def reshape(self, *shape, **kw):
        s = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return type(self)(self.toarray().reshape(tuple(s), order=kw.get('order', 'C')))

    # -------------------------------------------------------------- arithmetic
    def _rescls(self, o=None):
        return type(self) if self.format in ('csr', 'csc') else csr_matrix

    def __matmul__(self, o):
        if is_num(o) or isinstance(o, Sym):
            raise ValueError('Scalar operands are not allowed, use \'*\' instead')
        return self.__mul__(o)

    def __rmatmul__(self, o):
        return self.__rmul__(o)

    def __mul__(self, o):
        if is_num(o) or isinstance(o, (Sym, SymBool)):
            o = lift(o)
            return self._map(lambda e: e * o, kmax(self._spk, o.kind))
        if isinstance(o, spmatrix):
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            return self._rescls()(matmul_(self.toarray(), o.toarray()))
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self * o.item()
        if isinstance(o, (np.ndarray, list, tuple)) or hasattr(o, 'to_numpy'):
            mat = isinstance(o, np.matrix)
            a = to_sarr(o)
            a = wrap(raw(a), a._k)
            if a.ndim > 2:
                raise ValueError('could not interpret dimensions')
            if a.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            r = matmul_(self.toarray(), a)
            return smat(r) if mat else r
        return NotImplemented

    def __rmul__(self, o):
        if is_num(o) or isinstance(o, (Sym, SymBool)):
            return self * o
        if isinstance(o, (np.ndarray, list, tuple)):
            mat = isinstance(o, np.matrix)
            a = to_sarr(o)
            if a.ndim == 0:
                return self * a.item()
            r = matmul_(wrap(raw(a), a._k), self.toarray())
            return smat(r) if mat else r
        return NotImplemented

    def dot(self, o):
        return self * o

    def multiply(self, o):
        if is_num(o) or isinstance(o, Sym):
            return self * o
        d = np.multiply(self.toarray(), _dense(o))
        return csr_matrix(d) if isinstance(o, spmatrix) or self.format != 'coo' else coo_matrix(d)

    def _addsub(self, o, sgn, rev=False):
        if is_num(o) or isinstance(o, Sym):
            if is_num(o) and o == 0:
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        if isinstance(o, spmatrix):
            if self.shape != o.shape:
                raise ValueError('inconsistent shapes')
            a, b = self.toarray(), o.toarray()
            return self._rescls()(a + b if sgn > 0 else a - b)
        if isinstance(o, np.ndarray):
            a, b = self.toarray(), to_sarr(o)
            b = wrap(raw(b), b._k)
            r = a + b if sgn > 0 else (b - a if rev else a - b)
            return smat(r)
        return NotImplemented

    def __add__(self, o):
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        if isinstance(o, spmatrix):
            return o - self
        return self._addsub(o, -1, True)

    def __truediv__(self, o):
        if is_num(o) or isinstance(o, Sym):
            o = lift(o)
            return self._map(lambda e: e / o, kmax(kmax(self._spk, o.kind), 'f'))
        if isinstance(o, (np.ndarray, spmatrix)):
            return smat(np.true_divide(self.toarray(), _dense(o)))
        return NotImplemented

    def __rtruediv__(self, o):
        return NotImplemented

    def __pow__(self, n):
        if not isinstance(n, (int, np.integer)):
            raise Unsupported('sparse power')
        r = eye(self.shape[0], format='csr')
        for _ in range(n):
            r = r * self
        return r

    def power(self, n, dtype=None):
        return self._map(lambda e: e ** n, self._spk)

    def maximum(self, o):
        return csr_matrix(np.maximum(self.toarray(), _dense(o)))

    def _cmp(self, o, name):
        d = getattr(np, name)(self.toarray(), _dense(o) if not is_num(o) else o)
        return csr_matrix(to_sarr(d))

    def __ne__(self, o):
        return self._cmp(o, 'not_equal') if not (o is None or isinstance(o, str)) else True

    def __eq__(self, o):
        return self._cmp(o, 'equal') if not (o is None or isinstance(o, str)) else False

    def __lt__(self, o):
        return self._cmp(o, 'less')

    def __gt__(self, o):
        return self._cmp(o, 'greater')

    def __le__(self, o):
        return self._cmp(o, 'less_equal')

    def __ge__(self, o):
        return self._cmp(o, 'greater_equal')

    __hash__ = None

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __len__(self):
        raise TypeError('sparse matrix length is ambiguous; use getnnz()')

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i, :]

    # -------------------------------------------------------------- indexing
    def __getitem__(self, key):
        if self.format not in ('csr', 'csc', 'lil', 'dok'):
            raise TypeError("'%s_matrix' object is not subscriptable" % self.format)
        a = self.toarray()
        key = conv_key(key)
        if isinstance(key, tuple):
            key = tuple(k for k in key if k is not Ellipsis) if len(key) > 2 else key
            if len(key) == 1:
                key = (key[0], slice(None))
            i, j = key
        else:
            if isinstance(key, (np.ndarray, spmatrix)) and getattr(key, 'ndim', 1) == 2 and key.dtype == bool:
                return smat(a[_np(key)])
            i, j = key, slice(None)
        ints = (int, np.integer)
        if isinstance(i, ints) and isinstance(j, ints):
            return a[i, j]
        if isinstance(i, ints):
            i = slice(i, i + 1) if i != -1 else slice(-1, None)
        if isinstance(j, ints):
            j = slice(j, j + 1) if j != -1 else slice(-1, None)
        if not isinstance(i, slice) and not isinstance(j, slice):
            i, j = np.asarray(i), np.asarray(j)
            r = a[i, j]
            if r.ndim == 1:
                return smat(r.reshape(1, -1))
            return type(self)(r)
        if not isinstance(i, slice):
            i = np.asarray(i).ravel()
        if not isinstance(j, slice):
            j = np.asarray(j).ravel()
        return type(self)(a[i, j])

    def __setitem__(self, key, v):
        if self.format not in ('csr', 'csc', 'lil', 'dok'):
            raise TypeError("'%s_matrix' object does not support item assignment" % self.format)
        a = self.toarray()
        v = v.toarray() if isinstance(v, spmatrix) else v
        a[key] = v
        self._from_dense(a)

    def __repr__(self):
        return '<%s %r>' % (self.format, self.toarray())

    __str__ = __repr__


def _np(x):
    return x.toarray() if isinstance(x, spmatrix) else np.asarray(x)


class csr_matrix(spmatrix):
    format = 'csr'


class csc_matrix(spmatrix):
    format = 'csc'


class coo_matrix(spmatrix):
    format = 'coo'


class bsr_matrix(spmatrix):
    format = 'bsr'


class lil_matrix(spmatrix):
    format = 'lil'


class dok_matrix(spmatrix):
    format = 'dok'


class dia_matrix(spmatrix):
    format = 'dia'

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        if isinstance(arg1, tuple) and len(arg1) == 2 and not all(isinstance(e, (int, np.integer)) for e in arg1):
            d, offs = arg1
            d = to_sarr(d)
            if d.ndim == 1:
                d = d.reshape(1, -1)
            offs = np.atleast_1d(np.asarray(offs, dtype=int))
            m, n = shape
            a = szeros((m, n), d._k)
            for q, k in enumerate(offs.tolist()):
                for j in range(min(d.shape[1], n)):
                    if 0 <= j - k < m:
                        raw(a)[j - k, j] = raw(d)[q, j]
            arg1, shape = a, None
        spmatrix.__init__(self, arg1, shape, dtype)

    @property
    def offsets(self):
        return np.array(sorted(set((self._c - self._r).tolist())), dtype=np.int32)


CLASSES = {c.format: c for c in (csr_matrix, csc_matrix, coo_matrix, bsr_matrix, lil_matrix, dok_matrix, dia_matrix)}


def eye(m, n=None, k=0, dtype=float, format=None):
    m = int(m)
    a = to_sarr(np.eye(m, None if n is None else int(n), int(k), dtype=int), kind_of_dtype(dtype or float))
    return dia_matrix(a).asformat(format)


def identity(n, dtype='d', format=None):
    return eye(n, format=format)


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if is_num(offsets) or isinstance(offsets, Sym):
        offs = [int(offsets)]
        if isinstance(diagonals, (list, tuple)) and len(diagonals) and np.ndim(diagonals[0]) > 0 and \
                not isinstance(diagonals[0], (Sym,)) and not is_num(diagonals[0]):
            ds = [to_sarr(diagonals[0])]
            if len(diagonals) != 1:
                raise ValueError('Different number of diagonals and offsets.')
        else:
            d = to_sarr(diagonals)
            if d.ndim == 2:
                if d.shape[0] != 1:
                    raise ValueError('Different number of diagonals and offsets.')
                d = wrap(raw(d), d._k)[0]
            ds = [d]
    else:
        offs = [int(o) for o in offsets]
        ds = [to_sarr(d) for d in diagonals]
        if len(ds) != len(offs):
            raise ValueError('Different number of diagonals and offsets.')
    ds = [d if d.ndim else d.reshape(1) for d in ds]
    if shape is None:
        m = len(ds[0]) + abs(offs[0])
        shape = (m, m)
    k = 'f'
    for d in ds:
        k = kmax(k, d._k)
    if dtype is not None:
        k = kind_of_dtype(dtype)
    a = szeros(shape, k)
    m, n = shape
    for d, o in zip(ds, offs):
        L = min(m + o, n - o, min(m, n))
        if L < 0:
            raise ValueError('Offset %d (index 0) out of bounds' % o)
        if len(d) != L and len(d) != 1:
            raise ValueError('Diagonal length (index 0: %d at offset %d) does not agree with matrix size (%d, %d).'
                             % (len(d), o, m, n))
        for i in range(L):
            raw(a)[i + max(-o, 0), i + max(o, 0)] = cast_elem(raw(d)[i if len(d) == L else 0], k)
    return dia_matrix(a).asformat(format)


def spdiags(data, diags_, m, n, format=None):
    return dia_matrix((data, diags_), shape=(m, n)).asformat(format)


def kron(A, B, format=None):
    r = npf.kron(_dense2(A), _dense2(B))
    return coo_matrix(r).asformat(format) if format else (bsr_matrix(r) if not isinstance(B, spmatrix) else coo_matrix(r))


def _dense2(x):
    a = _dense(x)
    a = wrap(raw(a), a._k)
    return a if a.ndim == 2 else a.reshape(1, -1)


def bmat(blocks, format=None, dtype=None):
    rows = [list(r) for r in blocks]
    M, N = len(rows), len(rows[0])
    hs, ws = [0] * M, [0] * N
    for i in range(M):
        for j in range(N):
            if rows[i][j] is not None:
                b = rows[i][j] = _dense2(rows[i][j])
                if hs[i] not in (0, b.shape[0]):
                    raise ValueError('blocks[%d,:] has incompatible row dimensions.' % i)
                if ws[j] not in (0, b.shape[1]):
                    raise ValueError('blocks[:,%d] has incompatible column dimensions.' % j)
                hs[i], ws[j] = b.shape
    k = 'b'
    for r in rows:
        for b in r:
            if b is not None:
                k = kmax(k, b._k)
    for i in range(M):
        for j in range(N):
            if rows[i][j] is None:
                rows[i][j] = szeros((hs[i], ws[j]), k)
    a = np.concatenate([np.concatenate([to_sarr(b, k) for b in r], axis=1) for r in rows], axis=0)
    return coo_matrix(a).asformat(format)


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)], format)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks], format)


def block_diag(mats, format=None, dtype=None):
    n = len(mats)
    return bmat([[mats[i] if i == j else None for j in range(n)] for i in range(n)], format)


def tril(A, k=0, format=None):
    return coo_matrix(npf.tril(_dense2(A), k)).asformat(format)


def triu(A, k=0, format=None):
    return coo_matrix(npf.triu(_dense2(A), k)).asformat(format)


def issparse(x):
    return isinstance(x, spmatrix)


def ufunc(name, ins):
    if len(ins) == 1:
        x = ins[0]
        if name in ('abs', 'absolute'):
            return abs(x)
        if name == 'sqrt':
            return x.sqrt()
        if name in ('conj', 'conjugate'):
            return x.conj()
        if name == 'negative':
            return -x
        if name == 'sign':
            return x._map(lambda e: e.sign(), x._spk)
    else:
        a, b = ins
        if name == 'multiply':
            return a * b if isinstance(a, spmatrix) else b.__rmul__(a)
        if name == 'add':
            return a + b
        if name == 'subtract':
            return a - b
        if name in ('divide', 'true_divide') and isinstance(a, spmatrix):
            return a / b
    raise Unsupported('np.%s of a sparse matrix' % name)


def spsolve(A, b, permc_spec=None, use_umfpack=True):
    Ad = _dense(A)
    Ad = wrap(raw(Ad), Ad._k)
    if isinstance(b, spmatrix):
        bv = b.shape[1] == 1
        bd = b.toarray()
    else:
        bd = to_sarr(b)
        bd = wrap(raw(bd), bd._k)
        bv = bd.ndim == 1 or bd.ndim == 2 and bd.shape[1] == 1
    if Ad.shape[0] != Ad.shape[1]:
        raise ValueError('matrix must be square (has shape %s)' % (Ad.shape,))
    if Ad.shape[0] != bd.shape[0]:
        raise ValueError('matrix - rhs dimension mismatch (%s - %s)' % (Ad.shape, bd.shape[0]))
    if bv:
        return npf.solve(Ad, bd.ravel())
    r = npf.solve(Ad, bd)
    return csc_matrix(r) if isinstance(b, spmatrix) else r


def sp_inv(A):
    if not isinstance(A, spmatrix):
        raise TypeError('Input must be a sparse matrix')
    return spsolve(A, eye(A.shape[0], format='csc'))


class SpLinalg(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('scipy.sparse.linalg.' + n)


SPLINALG = SpLinalg('scipy.sparse.linalg')
SPLINALG.spsolve = spsolve
SPLINALG.inv = sp_inv
SPLINALG.norm = lambda x, ord=None, axis=None: npf.norm(x.toarray(), ord, axis)


def _splu(A):
    class LU(object):
        def solve(self, b, trans='N'):
            return spsolve(A if trans == 'N' else A.T, b)
    return LU()


SPLINALG.splu = SPLINALG.factorized = _splu
SPLINALG.factorized = lambda A: (lambda b: spsolve(A, b))


class SparseMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') or n == 'linalg':
            raise AttributeError('module %r has no attribute %r' % ('scipy.sparse', n))
        raise Unsupported('scipy.sparse.' + n)


SPARSE = SparseMod('scipy.sparse')
for _c in list(CLASSES.values()):
    setattr(SPARSE, _c.__name__, _c)
    setattr(SPARSE, _c.__name__.replace('_matrix', '_array'), _c)
for _n in ('eye', 'identity', 'diags', 'spdiags', 'kron', 'bmat', 'hstack', 'vstack', 'block_diag', 'tril', 'triu', 'issparse'):
    setattr(SPARSE, _n, globals()[_n])
SPARSE.spmatrix = spmatrix
SPARSE.isspmatrix = issparse
for _n in ('csr', 'csc', 'coo', 'dia', 'lil', 'bsr'):
    setattr(SPARSE, 'isspmatrix_' + _n, (lambda x, _n=_n: isinstance(x, spmatrix) and x.format == _n))
SPARSE.linalg = SPLINALG


# ------------------------------------------------------------------------------------------------ interpolation
def interp_linear(x, xp, fp):
    xs, xps, fps = to_sarr(x), to_sarr(xp), to_sarr(fp)
    f = interp1d(xps, fps, bounds_error=False, fill_value=(fps[0], fps[-1]))
    r = f(xs)
    return r


class interp1d(object):
    """piecewise linear interpolation with scipy's bounds semantics"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind not in ('linear', 1, 'slinear'):
            raise Unsupported('interp1d kind=%r' % (kind,))
        self.x = to_sarr(x)
        self.y = to_sarr(y)
        self.y = wrap(raw(self.y), self.y._k)
        if self.x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        self.axis = axis % self.y.ndim
        if self.y.shape[self.axis] != self.x.shape[0]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.extrap = isinstance(fill_value, str) and fill_value == 'extrapolate'
        self.fill = None if self.extrap else fill_value
        nan = not self.extrap and not isinstance(fill_value, tuple) and is_num(fill_value) and fill_value != fill_value
        self.bounds_error = (not self.extrap and nan) if bounds_error is None else bounds_error
        if not assume_sorted:
            p = self.x.argsort()
            self.x = self.x[p]
            self.y = np.take(self.y, p, axis=self.axis)

    def __call__(self, xn):
        xn = to_sarr(xn)
        xs = list(raw(self.x))
        y = np.moveaxis(raw(self.y), self.axis, 0)
        out = np.empty((xn.size,) + y.shape[1:], dtype=object)
        k = kmax(self.y._k, 'f')
        for q, v in enumerate(raw(xn).ravel().tolist()):
            v = lift(v)
            below, above = bool(s_lt(v, lift(xs[0]))), bool(s_lt(lift(xs[-1]), v))
            if (below or above) and self.bounds_error:
                raise ValueError('A value in x_new is %s the interpolation range.' % ('below' if below else 'above'))
            if (below or above) and not self.extrap:
                fv = self.fill
                if isinstance(fv, tuple):
                    fv = fv[0] if below else fv[1]
                fv = to_sarr(fv)
                vals = np.broadcast_to(raw(fv), y.shape[1:]) if y.ndim > 1 else raw(fv).item()
                if y.ndim == 1:
                    out[q] = cast_elem(vals, k)
                else:
                    for j in np.ndindex(*y.shape[1:]):
                        out[(q,) + j] = cast_elem(vals[j], k)
                continue
            # scipy: searchsorted(x, x_new) clipped to [1, n-1]
            hi = len(xs) - 1
            for i in range(1, len(xs) - 1):
                if bool(s_le(v, lift(xs[i]))):
                    hi = i
                    break
            lo = hi - 1
            xl, xh = lift(xs[lo]), lift(xs[hi])
            w = (v - xl) / (xh - xl)
            for j in np.ndindex(*y.shape[1:]):
                a, b = lift(y[(lo,) + j]), lift(y[(hi,) + j])
                e = cast_elem(a + (b - a) * w, k)
                if y.ndim == 1:
                    out[q] = e
                else:
                    out[(q,) + j] = e
        r = out.reshape(xn.shape + y.shape[1:])
        if xn.ndim == 1:
            r = np.moveaxis(r, 0, self.axis)
        return wrap(r, k)


class Any_(types.ModuleType):
    """a module whose content is only used where nothing is decided (plots, statistics of plots)"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _inert(self.__name__ + '.' + n)


def _inert(name):
    def f(*a, **k):
        raise Unsupported('call of ' + name)
    f.__name__ = name
    return f


SCIPY = Any_('scipy')
SCIPY.sparse = SPARSE
LINALG = Any_('scipy.linalg')
for _n in ('inv', 'pinv', 'solve', 'norm', 'det'):
    setattr(LINALG, _n, getattr(npf, _n))
LINALG.block_diag = lambda *m: block_diag(list(m)).toarray()
LINALG.svd = npf.svd
LINALG.lstsq = npf.lstsq
LINALG.LinAlgError = np.linalg.LinAlgError
SCIPY.linalg = LINALG
INTERP = Any_('scipy.interpolate')
INTERP.interp1d = interp1d
SCIPY.interpolate = INTERP
STATS_ = Any_('scipy.stats')
SCIPY.stats = STATS_
